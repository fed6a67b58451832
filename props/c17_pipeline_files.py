"""C17: pipeline definitions compose, subset and round-trip as documented."""

from __future__ import annotations

import copy
import hashlib
import itertools
import os
import re
import tempfile

import yaml
from lsst.pipe.base import LabelSpecifier, Pipeline
from lsst.pipe.base.pipelineIR import ConfigIR, PipelineIR, PipelineSubsetCtrl

from symx.core import outcome
from symx.runner import Case

ASSUMPTIONS = [
    "three task labels (one is the tail of another, one is also the name of another task's sub-config), two subsets, one "
    "step, four contracts; which of them are present, listed, renamed, included or excluded is symbolic; task classes are "
    "never imported; YAML parsing itself is exercised but not encoded",
]
LABELS = ("a", "b", "xa")
CONTRACTS = (("a.p == b.p", {"a", "b"}, {"a", "b"}), ("xa.q == 1", {"xa"}, {"xa"}), ("xa.a.q == b.q", {"xa", "b"}, {"xa", "b", "a"}),
             ("b.r ==\n  a.r", {"a", "b"}, {"a", "b"}))
_dir: list = []


def write(doc):
    """A real file with the document."""
    if not _dir or _dir[0][0] != os.getpid():
        _dir[:] = [(os.getpid(), tempfile.mkdtemp(prefix="verif-c17-"))]
    text = yaml.safe_dump(doc, sort_keys=False)
    path = os.path.join(_dir[0][1], hashlib.md5(text.encode()).hexdigest() + ".yaml")
    if not os.path.exists(path):
        with open(path, "w") as f:
            f.write(text)
    return path


def subset_of(eng, name, items):
    return [x for x in items if eng.bool(f"{name}_{x}")]


def base_doc(eng, subs, step):
    doc = {"description": "d", "instrument": "I.J", "tasks": {x: {"class": f"k.{x.upper()}", "config": {"n": i}}
                                                             for i, x in enumerate(LABELS)},
           "contracts": [c for c, _, _ in CONTRACTS], "parameters": {"p": 1}}
    doc["subsets"] = {k: ({"subset": list(v), "description": f"about {k}"} if k == "s1" else list(v)) for k, v in subs.items()}
    if step:
        doc["steps"] = [{"label": "s1", "dimensions": ["visit", "detector"]}]
    return doc


def contracts_ok(eng, got, selected, rename, wanted):
    """Contracts of dropped tasks are gone, the others are there, under the new labels."""
    got = list(got)
    for text, refs, mentions in CONTRACTS:
        new = text
        for a, b in rename.items():
            new = re.sub(rf"(?<![\w.]){a}\.", f"{b}.", new)
        n = sum(x == new for x in got)
        if not wanted or not refs <= selected:
            eng.check(n == 0, "a contract of a dropped task is kept", f"{got}")
        elif mentions <= selected:
            eng.check(n == 1, "a contract was lost, doubled or not renamed", f"{new!r} {got}")
        got = [x for x in got if x != new]
    eng.check(not got, "a contract appeared", f"{got}")


def expect(eng, ir, subs, step, selected, rename, mode, contracts=True, steps=True):
    ren = {a: rename.get(a, a) for a in LABELS if a in selected}
    eng.check(set(ir.tasks) == set(ren.values()), "wrong tasks", f"{set(ir.tasks)} {ren}")
    for i, a in enumerate(LABELS):
        if a in selected:
            t = ir.tasks[ren[a]]
            eng.check(t.label == ren[a] and t.klass == f"k.{a.upper()}" and [c.rest for c in t.config] == [{"n": i}],
                      "a task's definition changed", f"{a}")
    want = {}
    for k, v in subs.items():
        v = set(v)
        if mode == "DROP" and (not v <= selected or not v):
            continue
        want[k] = {ren[x] for x in v if x in selected}
    eng.check({k: v.subset for k, v in ir.labeled_subsets.items()} == want, "wrong subsets",
              f"{ir.labeled_subsets} {want}")
    for k, v in ir.labeled_subsets.items():
        eng.check(v.label == k and v.description == ("about s1" if k == "s1" else None), "a subset's description changed")
    eng.check([(s.label, s.dimensions) for s in ir.steps] == ([("s1", ["visit", "detector"])] if step and steps and "s1" in want else []),
              "wrong steps", f"{ir.steps}")
    contracts_ok(eng, [c.contract for c in ir.contracts], selected, {a: b for a, b in ren.items() if a != b}, contracts)
    eng.check(dict(ir.parameters.mapping) == {"p": 1}, "parameters changed")


def free_subs(eng, names):
    return {k: subset_of(eng, k, LABELS) for k in names}


def imports(eng, kind, renames, subs_names=("s1",), subs_fixed=None, flags=False, modes=("DROP", "EDIT")):
    """Importing a file with include/exclude/rename."""
    subs = free_subs(eng, subs_names) if subs_fixed is None else subs_fixed
    step = True if not flags else bool(eng.bool("step"))
    loc = write(base_doc(eng, subs, step))
    mode = eng.choice("mode", modes)
    rename = eng.choice("rename", renames)
    imp = {"location": loc, "labeledSubsetModifyMode": mode}
    if rename:
        imp["rename"] = dict(rename)
    con = steps = True
    if flags:
        con, steps = bool(eng.bool("contracts")), bool(eng.bool("steps"))
        imp["importContracts"], imp["importSteps"] = con, steps
        inst = eng.choice("instrument", ("keep", "None", "I.K"))
        if inst != "keep":
            imp["instrument"] = inst
    named = set()
    if kind != "all":
        lst = subset_of(eng, kind, LABELS + tuple(subs))
        imp[kind] = lst if len(lst) != 1 or eng.bool("aslist") else lst[0]
        for x in lst:
            named |= set(subs[x]) if x in subs else {x}
    selected = set(LABELS) if kind == "all" else named & set(LABELS) if kind == "include" else set(LABELS) - named
    doc = {"description": "top", "imports": [imp] if eng.bool("list") else imp}
    before = copy.deepcopy(doc)
    k, ir = outcome(PipelineIR, doc)
    hot = {a: b for a, b in rename.items() if a in selected}
    clash = any(b in selected and b not in hot for b in hot.values()) or len(set(rename.values())) != len(rename) or bool(
        set(rename.values()) & set(rename))
    maybe = any(b in LABELS for b in hot.values())
    if k == "exc":
        eng.check(isinstance(ir, ValueError) and (clash or maybe), "import was refused", repr(ir))
        eng.reach("refused")
        return
    eng.check(not clash, "two tasks were imported under one label")
    expect(eng, ir, subs, step, selected, rename, mode, con, steps)
    if flags:
        eng.check(ir.instrument == {"keep": "I.J", "None": None}.get(inst, inst), "wrong instrument", repr(ir.instrument))
    eng.reach("renamed" if hot else "imported")
    round_trip(eng, ir)
    # the same document gives the same pipeline again
    k2, ir2 = outcome(PipelineIR, before)
    eng.check(k2 == "ok" and ir2 == ir, "importing twice gives different pipelines")


def round_trip(eng, ir):
    k, back = outcome(PipelineIR.from_string, str(ir))
    eng.check(k == "ok", "a written pipeline cannot be read", repr(back))
    same(eng, ir, back, "writing and reading changes the pipeline")
    eng.check(ir == back and back == ir, "a pipeline differs from its copy")


def same(eng, a, b, label):
    for n in ("description", "instrument", "tasks", "labeled_subsets", "steps"):
        eng.check(getattr(a, n) == getattr(b, n), label, n)
    eng.check(list(a.tasks) == list(b.tasks), label, "task order")
    eng.check(dict(a.parameters.mapping) == dict(b.parameters.mapping), label, "parameters")
    eng.check(sorted((c.contract, c.msg or "") for c in a.contracts) == sorted((c.contract, c.msg or "") for c in b.contracts), label,
              "contracts")


def select(eng, via, modes=("DROP", "EDIT")):
    """Selecting labels of a pipeline."""
    subs = free_subs(eng, ("s1",))
    subs["s2"] = ["b"]
    step = True
    ir = PipelineIR(base_doc(eng, subs, step))
    keep = copy.deepcopy(ir)
    labels = set(subset_of(eng, "pick", LABELS + ("s1", "ghost")))
    eng.assume(bool(labels))
    asked = set(labels)
    mode = eng.choice("mode", modes)
    if via == "ir":
        k, out = outcome(ir.subset_from_labels, labels, PipelineSubsetCtrl[mode])
    elif via == "pipeline":
        p = Pipeline.fromIR(ir)
        k, out = outcome(p.subsetFromLabels, LabelSpecifier(labels=labels), PipelineSubsetCtrl[mode])
        if k == "ok":
            out = PipelineIR.from_string(str(out))
    else:
        path = write(base_doc(eng, subs, step))
        k, out = outcome(Pipeline.from_uri, path + "#" + ",".join(sorted(labels)))
        if k == "ok":
            out = PipelineIR.from_string(str(out))
    eng.check(labels == asked, "the caller's labels were modified", f"{labels}")
    same(eng, ir, keep, "subsetting modified the original")
    if "ghost" in asked:
        eng.check(k == "exc" and isinstance(out, ValueError), "an unknown label was accepted", repr(out))
        eng.reach("unknown")
        return
    eng.check(k == "ok", "subsetting failed", repr(out))
    sel = set().union(*[set(subs[x]) if x in subs else {x} for x in asked])
    expect(eng, out, subs, step, sel, {}, mode)
    eng.reach("subset")


def specifier(eng):
    """What the part of a pipeline URI behind '#' means."""
    path = write(base_doc(eng, {"s1": ["a", "b"], "s2": ["b"]}, True))
    frag = eng.choice("frag", ("", "a", "a,b", "s1", "s2,xa", "a,a", "a..b,xa", "a..b..xa", "nope", "a,nope", "#", "s1#a"))
    k, p = outcome(Pipeline.from_uri, path + ("#" + frag if frag else ""))
    want = {"": set(LABELS), "a": {"a"}, "a,b": {"a", "b"}, "s1": {"a", "b"}, "s2,xa": {"b", "xa"}, "a,a": {"a"}}.get(frag)
    if want is None:
        eng.check(k == "exc" and isinstance(p, ValueError), "a bad label list was accepted", f"{frag} {p!r}")
        eng.reach("refused")
    else:
        eng.check(k == "ok" and set(p.task_labels) == want, "wrong labels selected", f"{frag} {p!r}")
        eng.reach("selected")


# ---- merging ---------------------------------------------------------------
def blocks(eng, tag, n, kinds, keys):
    """Config blocks with symbolic values."""
    out = []
    for i in range(n):
        kind = eng.choice(f"{tag}{i}_kind", kinds)
        c = {k: eng.int(f"{tag}{i}_{k}") for k in keys if eng.bool(f"{tag}{i}_has_{k}")}
        if kind == "python":
            c["python"] = f"py_{tag}{i}"
        elif kind == "file":
            c["file"] = f"f_{tag}{i}" if eng.bool(f"{tag}{i}_one") else [f"f_{tag}{i}", "g"]
        out.append(c)
    return out


def effect(confs):
    """What a list of config blocks does, applied in order."""
    state, log = {}, []
    for c in confs:
        for f in c.file:
            log.append(("file", f, dict(state)))
        if c.python is not None:
            log.append(("python", c.python, dict(state)))
        state.update(c.rest)
    return state, log


def spec_effect(raw):
    state, log = {}, []
    for c in raw:
        f = c.get("file", [])
        for x in [f] if isinstance(f, str) else f:
            log.append(("file", x, dict(state)))
        if "python" in c:
            log.append(("python", c["python"], dict(state)))
        state.update({k: v for k, v in c.items() if k not in ("file", "python")})
    return state, log


def same_effect(eng, got, want, label):
    gs, gl = got
    ws, wl = want
    eng.check(set(gs) == set(ws), label, f"{sorted(gs)} {sorted(ws)}")
    eng.check(eng.both(*[gs[k] == ws[k] for k in ws]), label)
    eng.check([x[:2] for x in gl] == [x[:2] for x in wl], label, f"{[x[:2] for x in gl]} {[x[:2] for x in wl]}")
    for (_, _, g), (_, _, w) in zip(gl, wl):
        eng.check(set(g) == set(w), label)
        eng.check(eng.both(*[g[k] == w[k] for k in w]), label)


def merging(eng, n_imp, n_top, kinds, keys=("k1", "k2"), same_class=(True, False)):
    """The current declaration takes precedence, setting by setting."""
    imp, top = blocks(eng, "i", n_imp, kinds, keys), blocks(eng, "t", n_top, kinds, keys)
    cls = eng.choice("same_class", same_class)
    d_imp = {"description": "x", "tasks": {"a": {"class": "k.A", "config": [dict(c) for c in imp]} if n_imp else "k.A"}}
    d_top = {"description": "y", "tasks": {"a": {"class": "k.A" if cls else "k.Z", "config": [dict(c) for c in top]} if n_top else
                                           ("k.A" if cls else "k.Z")}}
    i, t = PipelineIR(d_imp), PipelineIR(d_top)
    k, v = outcome(t.merge_pipelines, [i])
    eng.check(k == "ok", "merging failed", repr(v))
    task = t.tasks["a"]
    eng.check(task.klass == ("k.A" if cls else "k.Z"), "wrong class")
    same_effect(eng, effect(task.config or []), spec_effect((imp if cls else []) + top), "the merged configuration is wrong")
    same_effect(eng, effect(i.tasks["a"].config or []), spec_effect(imp), "merging changed the merged-in pipeline")
    eng.reach("merged")
    # further overrides apply on top, and only to this pipeline
    p = Pipeline.fromIR(t)
    x = eng.int("later")
    p.addConfigOverride("a", "k1", x)
    if eng.bool("py"):
        p.addConfigPython("a", "snippet")
        last = [{"k1": x}, {"python": "snippet"}]
    else:
        p.addConfigFile("a", "cfg.py")
        last = [{"k1": x}, {"file": "cfg.py"}]
    same_effect(eng, effect(t.tasks["a"].config or []), spec_effect((imp if cls else []) + top + last), "an override was lost or moved")
    same_effect(eng, effect(i.tasks["a"].config or []), spec_effect(imp), "an override reached another pipeline")


def merge_rules(eng, n):
    """What may be merged with what; a refused merge changes nothing."""
    docs = []
    for j in range(n):
        labels = subset_of(eng, f"tasks{j}", ("a", "b"))
        d = {"description": f"p{j}", "tasks": {x: f"k.{x}" for x in labels}}
        inst = eng.choice(f"inst{j}", (None, "I", "J") if j < 2 else (None,))
        if inst:
            d["instrument"] = inst
        d["contracts"] = [f"{x}.c{j} == 1" for x in labels]
        if labels and eng.bool(f"sub{j}"):
            name = eng.choice(f"subname{j}", ("s", "t"))
            d["subsets"] = {name: list(labels)}
            dims = eng.choice(f"dims{j}", (None, ("visit",), ("patch",)))
            if dims:
                d["steps"] = [{"label": name, "dimensions": list(dims)}]
        d["parameters"] = {"p": j, f"q{j}": j}
        docs.append(d)
    irs = [PipelineIR(copy.deepcopy(d)) for d in docs]
    keep = copy.deepcopy(irs)
    top, others = irs[0], irs[1:]
    k, v = outcome(top.merge_pipelines, others)
    insts = {d.get("instrument") for d in docs} - {None}
    bad = len(insts) > 1
    for x, y in itertools.combinations(docs[1:], 2):
        bad |= bool(set(x["tasks"]) & set(y["tasks"])) or bool(set(x.get("subsets", {})) & set(y.get("subsets", {})))
    steps = {}
    for d in docs:
        for s in d.get("steps", []):
            bad |= steps.setdefault(s["label"], s["dimensions"]) != s["dimensions"]
    for a, b in zip(others, keep[1:]):
        same(eng, a, b, "merging changed a merged-in pipeline")
    if bad:
        eng.check(k == "exc" and isinstance(v, ValueError), "conflicting pipelines were merged", repr(v))
        same(eng, top, keep[0], "a refused merge changed the pipeline")
        eng.reach("conflict")
        return
    eng.check(k == "ok", "a merge was refused", repr(v))
    eng.check(set(top.tasks) == set().union(*[set(d["tasks"]) for d in docs]), "wrong tasks")
    eng.check(top.instrument == (insts.pop() if insts else None), "wrong instrument")
    eng.check(sorted(c.contract for c in top.contracts) == sorted(c for d in docs for c in d["contracts"]), "wrong contracts")
    want = {}
    for d in docs[1:] + docs[:1]:
        want.update({kk: set(vv) for kk, vv in d.get("subsets", {}).items()})
    eng.check({kk: s.subset for kk, s in top.labeled_subsets.items()} == want, "wrong subsets")
    eng.check({s.label: s.dimensions for s in top.steps} == steps, "wrong steps")
    eng.check(top.parameters.mapping["p"] == 0 and all(top.parameters.mapping[f"q{j}"] == j for j in range(n)), "wrong parameters")
    eng.reach("merged")
    round_trip(eng, top)
    # later edits stay in the merged pipeline
    p = Pipeline.fromIR(top)
    for s in list(want):
        for x in top.tasks:
            if x not in want[s]:
                p.addLabelToSubset(s, x)
    for c in top.contracts:
        c.msg = "edited"
    for a, b in zip(others, keep[1:]):
        same(eng, a, b, "editing the merged pipeline changed another")


def edits(eng, n):
    """Editing a pipeline in memory."""
    p = Pipeline.fromIR(PipelineIR({"description": "d", "tasks": {x: f"k.{x}" for x in LABELS}, "subsets": {"s1": ["a", "b"]}}))
    tasks, subs = set(LABELS), {"s1": {"a", "b"}}
    for i in range(n):
        op = eng.choice(f"op{i}", ("addl", "reml", "adds", "rems", "find", "override"))
        s = eng.choice(f"s{i}", ("s1", "new"))
        x = eng.choice(f"x{i}", ("a", "xa", "ghost"))
        if op == "addl":
            k, v = outcome(p.addLabelToSubset, s, x)
            ok = s in subs and x in tasks
            if ok:
                subs[s].add(x)
        elif op == "reml":
            k, v = outcome(p.removeLabelFromSubset, s, x)
            ok = s in subs and x in subs[s]
            if ok:
                subs[s].discard(x)
        elif op == "adds":
            k, v = outcome(p.addLabeledSubset, s, "text", {x, "b"})
            ok = s not in subs and x in tasks
            if ok:
                subs[s] = {x, "b"}
        elif op == "rems":
            k, v = outcome(p.removeLabeledSubset, s)
            ok = s in subs
            if ok:
                del subs[s]
        elif op == "find":
            k, v = outcome(p.findSubsetsWithLabel, x)
            ok = x in tasks
            if ok:
                eng.check(k == "ok" and v == {y for y, m in subs.items() if x in m}, "wrong subsets found", repr(v))
        else:
            k, v = outcome(p.addConfigOverride, x, "f", 1)
            ok = x in tasks
            eng.check(ok or isinstance(v, LookupError), "an override for an unknown task was accepted")
            if not ok:
                v = ValueError()
        eng.check((k == "ok") == ok, "an edit was wrongly accepted or refused", f"{op} {s} {x} {v!r}")
        eng.check(ok or isinstance(v, ValueError), "wrong error", repr(v))
        eng.check({y: set(m) for y, m in p.subsets.items()} == subs and set(p.task_labels) == tasks, "the pipeline is wrong after an edit",
                  f"{dict(p.subsets)} {subs}")
        eng.reach("edited" if ok else "refused")


def cases(tier):
    t = tier == "thorough"
    cap = 3000 if t else 400
    no, ren = ({},), ({}, {"a": "n"}, {"b": "n"}, {"a": "n", "b": "m"}, {"a": "b"}, {"a": "n", "b": "n"}, {"a": "n", "n": "a"},
                      {"xa": "n", "zz": "y"})
    fixed = dict(s1=["a", "b"], s2=["xa", "b"])
    out = [
        Case("import-all", imports, dict(kind="all", renames=ren, flags=True), "any subset, any rename", ("imported", "renamed", "refused"),
             time_cap=cap, validate_every=200),
        Case("import-include", imports, dict(kind="include", renames=no), "any subset, any include list", ("imported",), time_cap=cap,
             validate_every=200),
        Case("import-exclude", imports, dict(kind="exclude", renames=no), "any subset, any exclude list", ("imported",), time_cap=cap,
             validate_every=200),
        Case("rename-include", imports, dict(kind="include", renames=ren[1:5], subs_fixed=fixed), "rename with any include list",
             ("renamed", "refused", "imported"), time_cap=cap, validate_every=200),
        Case("rename-exclude", imports, dict(kind="exclude", renames=ren[1:5], subs_fixed=fixed), "rename with any exclude list",
             ("renamed", "refused", "imported"), time_cap=cap, validate_every=200),
        Case("select-ir", select, dict(via="ir"), "any label set", ("unknown", "subset"), time_cap=cap, validate_every=200),
        Case("select-pipeline", select, dict(via="pipeline"), "any label set", ("unknown", "subset"), time_cap=cap, validate_every=200),
        Case("select-uri", select, dict(via="uri", modes=("DROP",)), "any label list in a URI", ("unknown", "subset"), time_cap=cap,
             validate_every=200),
        Case("uri-fragment", specifier, {}, "listed fragments", ("refused", "selected"), time_cap=cap),
        Case("merge-11", merging, dict(n_imp=1, n_top=1, kinds=("rest", "python", "file")), "1+1 config blocks, symbolic values", ("merged",),
             time_cap=cap, validate_every=100),
        Case("merge-21", merging, dict(n_imp=2, n_top=1, kinds=("rest",)), "2+1 config blocks", ("merged",), time_cap=cap, validate_every=100),
        Case("merge-12", merging, dict(n_imp=1, n_top=2, kinds=("rest",), same_class=(True,)), "1+2 config blocks", ("merged",),
             time_cap=cap, validate_every=100),
        Case("merge-01", merging, dict(n_imp=0, n_top=1, kinds=("rest", "python")), "0+1 config blocks", ("merged",), time_cap=cap),
        Case("merge-10", merging, dict(n_imp=1, n_top=0, kinds=("rest", "python")), "1+0 config blocks", ("merged",), time_cap=cap),
        Case("merge-rules-2", merge_rules, dict(n=2), "two pipelines", ("conflict", "merged"), time_cap=cap, validate_every=200),
        Case("edit-2", edits, dict(n=2), "two edits", ("edited", "refused"), time_cap=cap, validate_every=100),
    ]
    if t:
        out += [Case("merge-21-all", merging, dict(n_imp=2, n_top=1, kinds=("rest", "python", "file"), keys=("k1",)), "2+1 blocks of any kind",
                     ("merged",), time_cap=cap, validate_every=500),
                Case("merge-22", merging, dict(n_imp=2, n_top=2, kinds=("rest",), same_class=(True,)), "2+2 blocks", ("merged",), time_cap=cap,
                     validate_every=500),
                Case("merge-rules-3", merge_rules, dict(n=3), "three pipelines", ("conflict", "merged"), time_cap=cap, validate_every=500),
                Case("edit-3", edits, dict(n=3), "three edits", ("edited", "refused"), time_cap=cap, validate_every=500)]
    return out
