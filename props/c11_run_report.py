"""C11: the execution report classifies every quantum and dataset by what its runs left behind."""

from __future__ import annotations

import collections
import uuid

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import DataCoordinate, DatasetRef, MissingDatasetTypeError, Quantum
from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections, QuantumGraph, QuantumSuccessCaveats, TaskDef, TaskMetadata
from lsst.pipe.base import quantum_provenance_graph as qp

from symx.core import Stub, outcome
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = [
    "real quantum graphs over at most four quanta (a chain, a fan-in) for one to three runs; which quanta each run has and which "
    "metadata, log and output datasets exist is symbolic; the butler is a stand-in with find-first lookup; metadata and logs are read "
    "through it, not through a quantum-backed butler",
]
SC, U = te.SC, te.UNIVERSE
DET, INS = ("instrument", "detector"), ("instrument",)


class CA(PipelineTaskConnections, dimensions=DET):
    raw = cT.Input(name="raw", storageClass=SC, dimensions=DET)
    mid = cT.Output(name="mid", storageClass=SC, dimensions=DET)


class CB(PipelineTaskConnections, dimensions=DET):
    mid = cT.Input(name="mid", storageClass=SC, dimensions=DET)
    out = cT.Output(name="endb", storageClass=SC, dimensions=DET)


class CC(PipelineTaskConnections, dimensions=INS):
    mid = cT.Input(name="mid", storageClass=SC, dimensions=DET, multiple=True)
    out = cT.Output(name="endc", storageClass=SC, dimensions=INS)


class CE(PipelineTaskConnections, dimensions=DET):
    inp = cT.Input(name="endb", storageClass=SC, dimensions=DET)
    out = cT.Output(name="ende", storageClass=SC, dimensions=DET)


class CM(PipelineTaskConnections, dimensions=DET):
    """Output names that look like metadata and log names of another task."""

    raw = cT.Input(name="raw", storageClass=SC, dimensions=DET)
    md = cT.Output(name="zz_metadata", storageClass=SC, dimensions=DET)
    lg = cT.Output(name="zz_log", storageClass=SC, dimensions=DET)


def _mk(name, conn):
    cfg = type("Cf" + name, (PipelineTaskConfig,), {"__module__": __name__}, pipelineConnections=conn)
    return type("T" + name, (PipelineTask,), {"ConfigClass": cfg, "_DefaultName": name.lower(), "__module__": __name__})


TA, TB, TC, TE, TM = (_mk(n, c) for n, c in (("A", CA), ("B", CB), ("C", CC), ("E", CE), ("M", CM)))
CLS = {"a": TA, "b": TB, "c": TC, "e": TE, "m": TM}
TDEF = {k: TaskDef(f"{__name__}.T{k.upper()}", c.ConfigClass(), c, k) for k, c in CLS.items()}
DID = {k: te.data_id(k) for k in range(2)}
I0 = DataCoordinate.standardize(instrument="I", universe=U)
# quantum -> (label, data ID, inputs, outputs)
QUANTA = {
    "a0": ("a", DID[0], [("raw", 0)], [("mid", 0)]), "a1": ("a", DID[1], [("raw", 1)], [("mid", 1)]),
    "b0": ("b", DID[0], [("mid", 0)], [("endb", 0)]), "e0": ("e", DID[0], [("endb", 0)], [("ende", 0)]),
    "c": ("c", I0, [("mid", 0), ("mid", 1)], [("endc", None)]),
    "m0": ("m", DID[0], [("raw", 0)], [("zz_metadata", 0), ("zz_log", 0)]),
}
_dts: dict = {}


def dtype(name):
    if not _dts:
        from lsst.pipe.base.pipeline_graph import PipelineGraph

        g = PipelineGraph(universe=U)
        for k, c in CLS.items():
            g.add_task(k, c, c.ConfigClass())
        g.resolve(dimensions=U, dataset_types={})
        _dts.update({k: v.dataset_type for k, v in g.dataset_types.items()})
    return _dts[name]


def keys_of(q):
    """(dataset type, data ID) of all outputs: metadata, log, regular."""
    label, d, _, outs = QUANTA[q]
    return [(f"{label}_metadata", d), (f"{label}_log", d)] + [(n, I0 if k is None else DID[k]) for n, k in outs]


_refs: dict = {}


def ref(name, d, run):
    k = (name, d, run)
    if k not in _refs:
        _refs[k] = DatasetRef(dtype(name), d, run=run, id=uuid.uuid5(uuid.UUID(int=11), f"{name}-{d}-{run}"))
    return _refs[k]


_graphs: dict = {}


def graph(quanta, run, t):
    k = (tuple(quanta), run, t)
    if k not in _graphs:
        per = collections.defaultdict(set)
        for q in quanta:
            label, d, ins, _ = QUANTA[q]
            inputs = collections.defaultdict(list)
            for n, kk in ins:
                # inputs of quanta that this graph has no producer for were made earlier
                mine = any((n, DID[kk]) in keys_of(x) for x in quanta)
                inputs[dtype(n)].append(ref(n, DID[kk], run if mine else "other"))
            outputs = {dtype(n): [ref(n, dd, run)] for n, dd in keys_of(q)}
            per[TDEF[label]].add(Quantum(taskName=TDEF[label].taskName, dataId=d, inputs=inputs, outputs=outputs))
        _graphs[k] = QuantumGraph(per, metadata={"output_run": run, "time": f"2025-01-0{t}", "packages": {}, "user": "u"}, universe=U)
    return _graphs[k]


class Butler(Stub):
    def __init__(self, exist, objects, registered):
        self.exist, self.objects, self.registered = exist, objects, registered
        self.gets = []

    def query_datasets(self, name, collections=None, where="", limit=-20000, explain=True, **kw):
        assert limit is None and explain is False
        name = name if isinstance(name, str) else name.name
        if name not in self.registered:
            raise MissingDatasetTypeError(name)
        runs = [collections] if isinstance(collections, str) else list(collections)
        out = {}
        for run in runs:
            for (n, d, r) in self.exist:
                if n == name and r == run:
                    out.setdefault(d, ref(n, d, r))
        return list(out.values())

    def find_dataset(self, *a, **k):
        return None

    def clone(self, **kw):
        return self

    def get(self, r, /, **kw):
        self.gets.append(r)
        key = (r.datasetType.name, r.dataId, r.run)
        if key not in self.exist:
            raise FileNotFoundError(str(r))
        return self.objects[key]


def fold(history):
    """Overall status, and whether it recovered (None: unspecified), from the run statuses in order."""
    s, rec = "UNKNOWN", False
    for n, x in enumerate(history):
        if s == "WONKY":
            continue
        if x == "SUCCESSFUL":
            if s in ("FAILED", "BLOCKED"):
                rec = True
            elif s == "UNKNOWN" and any(y in ("FAILED", "BLOCKED") for y in history[:n]):
                rec = None
            s = "SUCCESSFUL"
        elif x == "LOGS_MISSING" or s == "SUCCESSFUL":
            s = "WONKY"
        elif x == "BLOCKED":
            s = "BLOCKED" if s == "UNKNOWN" else s
        elif x == "METADATA_MISSING":
            s = "UNKNOWN"
        else:
            s = "FAILED"
    return s, rec


def rec_of(name, level, msg):
    return ButlerLogRecord(name=name, asctime="2025-01-01T00:00:00", message=msg, levelno=level, levelname="X", filename="f", pathname="p",
                           lineno=1, funcName=None, process=1, processName="p", MDC={})


def report(eng, quanta, n_runs, membership=False, colls=None, caveats=None, extra=False, aggregate=False, free_colls=False):
    runs = [f"r{k}" for k in range(n_runs)]
    exist, objects, members = set(), {}, {}
    unregistered = bool(caveats is None and n_runs == 1 and eng.bool("some_types_unregistered"))
    for run in runs:
        members[run] = [q for q in quanta if not membership or len(quanta) == 1 or run == runs[0] or eng.bool(f"{run}_has_{q}")]
        if not members[run]:
            eng.assume(False)
        for q in members[run]:
            for j, (n, d) in enumerate(keys_of(q)):
                if eng.bool(f"{run}_{q}_{'mlo'[min(j, 2)]}{j}"):
                    exist.add((n, d, run))
    flags, fails = {}, {}
    for run in runs:
        for q in members[run]:
            label, d = QUANTA[q][:2]
            md = TaskMetadata()
            if caveats:
                c = eng.choice(f"{run}_{q}_caveats", caveats)
                flags[run, q] = c
                if c is not None:
                    md["quantum"] = TaskMetadata.from_dict({"caveats": c.value})
                    if c & QuantumSuccessCaveats.PARTIAL_OUTPUTS_ERROR and eng.bool(f"{run}_{q}_exc"):
                        fails[run, q] = f"why {run} {q}"
                        md[label] = TaskMetadata.from_dict({"failure": {"type": "mod.Err", "message": f"why {run} {q}", "metadata": {"n": 1}}})
            objects[f"{label}_metadata", d, run] = md
            objects[f"{label}_log", d, run] = ButlerLogRecords.from_records(
                [rec_of("x", 20, "fine"), rec_of("x", 40, f"bad {run} {q}"), rec_of("x", 30, "meh")])
    if extra:  # the run also holds datasets no graph predicted, and another run holds predicted ones
        if eng.bool("alien"):
            exist.add(("mid", DID[1], runs[0]))
        if eng.bool("elsewhere"):
            exist.add(("mid", DID[0], "old"))
    b = Butler(exist, objects, {n for n, _, _ in exist} if unregistered else {n for q in quanta for n, _ in keys_of(q)})
    options = {}
    if colls:
        chosen = eng.choice("collections", colls)
    elif free_colls:
        chosen = tuple(r for r in reversed(runs) if eng.bool(f"in_{r}"))
    else:
        chosen = None
    if chosen:
        options["collections"] = list(chosen)
        options["curse_failed_logs"] = eng.bool("curse_failed_logs")
    search = list(chosen) if chosen else runs[::-1]
    read = eng.choice("read_caveats", ["lazy", "exhaustive", None]) if caveats else None
    k, g = outcome(qp.QuantumProvenanceGraph, b, [graph(members[r], r, t + 1) for t, r in enumerate(runs)], read_caveats=read,
                   use_qbb=False, **options)
    eng.check(k == "ok", "the report failed", repr(g))
    # the runs, one by one
    want_run, want_info, wonky_vis = {}, {}, set()
    for run in runs:
        bad = set()
        for q in sorted(members[run], key=list(QUANTA).index if False else ["a0", "a1", "m0", "b0", "e0", "c"].index):
            (mn, d), (ln, _) = keys_of(q)[:2]
            m, lg = (mn, d, run) in exist, (ln, d, run) in exist
            if m:
                s = "SUCCESSFUL" if lg else "LOGS_MISSING"
            elif lg:
                s = "FAILED"
            else:
                s = "BLOCKED" if any((n, DID[kk]) in bad for n, kk in QUANTA[q][2]) else "METADATA_MISSING"
            if s in ("FAILED", "BLOCKED"):
                bad.update(keys_of(q))
            want_run[run, q] = s
    keys = {q: qp.QuantumKey(QUANTA[q][0], QUANTA[q][1].required_values) for q in quanta}
    eng.check({x for v in g.quanta.values() for x in v} == set(keys.values()), "wrong quanta in the report")
    vis = {}
    for q in quanta:
        for n, d in keys_of(q):
            hits = [r for r in search if (n, d, r) in exist]
            vis[n, d] = hits[0] if hits else None
    reads = set()
    for q in quanta:
        info = g.get_quantum_info(keys[q])
        mine = [r for r in runs if q in members[r]]
        eng.check(list(info["runs"]) == mine and info["data_id"] == QUANTA[q][1], "wrong runs for a quantum", f"{list(info['runs'])}")
        for r in mine:
            qr = info["runs"][r]
            eng.check(qr.status.name == want_run[r, q], "wrong status of a quantum in a run", f"{q} {r} {qr.status} want {want_run[r, q]}")
            (mn, d), (ln, _) = keys_of(q)[:2]
            eng.check(qr.metadata_ref == ref(mn, d, r) and qr.log_ref == ref(ln, d, r), "a quantum's metadata or log is another dataset")
            if caveats:
                full = all((n, dd, r) in exist for n, dd in keys_of(q))
                loaded = want_run[r, q] == "SUCCESSFUL" and (read == "exhaustive" or (read == "lazy" and not full))
                if loaded:
                    reads.add(ref(mn, d, r))
                eng.check(qr.caveats == (flags[r, q] if loaded else None), "wrong caveats", f"{q} {r} {qr.caveats}")
                x = fails.get((r, q)) if loaded else None
                eng.check((qr.exception.message if qr.exception else None) == x, "wrong exception", f"{qr.exception}")
        st, rec = fold([want_run[r, q] for r in mine])
        seen = {vis[kk] for kk in keys_of(q)} & set(mine)
        if len(seen) > 1:
            wonky_vis.add(q)
            st_final = "WONKY"
        else:
            st_final = st
        want_info[q] = st_final
        eng.check(info["status"].name == st_final, "wrong status of a quantum", f"{q} {info['status']} want {st_final}")
        if rec is not None and st_final == "SUCCESSFUL":
            eng.check(info["recovered"] == rec, "wrongly reported as recovered or not", f"{q} {info['recovered']}")
        eng.check(bool(info["messages"]) == (st_final == "WONKY"), "a strange quantum is not explained", f"{info['messages']}")
        for j, (n, d) in enumerate(keys_of(q)):
            di = g.get_dataset_info(qp.DatasetKey(n, d.required_values))
            eng.check({r: x.produced for r, x in di["runs"].items()} == {r: (n, d, r) in exist for r in mine}, "wrong datasets reported as produced")
            eng.check({r for r, x in di["runs"].items() if x.visible} == {vis[n, d]} & set(mine), "wrong datasets reported as visible")
            if st == "SUCCESSFUL":
                w = "VISIBLE" if vis[n, d] in mine else "SHADOWED" if any((n, d, r) in exist for r in mine) else "PREDICTED_ONLY"
            elif vis[n, d] in mine:
                w = "UNSUCCESSFUL" if j == 1 and not options.get("curse_failed_logs") else "CURSED"
            else:
                w = "UNSUCCESSFUL"
            ok = {w, "CURSED", "UNSUCCESSFUL"} if q in wonky_vis else {w}
            eng.check(di["status"].name in ok, "wrong status of a dataset", f"{n} {d} {di['status']} want {w}")
            eng.reach(w.lower())
        eng.reach(st_final.lower())
        if info["recovered"]:
            eng.reach("recovered")
    if caveats:
        eng.check(set(b.gets) == reads, "wrong metadata was read", f"{b.gets}")
    summarize(eng, g, b, quanta, members, want_run, want_info, exist, flags if read else {}, fails, read, runs, aggregate)


def summarize(eng, g, b, quanta, members, want_run, want_info, exist, flags, fails, read, runs, aggregate):
    b.gets.clear()
    k, s = outcome(g.to_summary, b)
    eng.check(k == "ok", "the summary failed", repr(s))
    by = collections.defaultdict(list)
    for q in quanta:
        by[QUANTA[q][0]].append(q)
    eng.check(set(s.tasks) == set(by), "wrong tasks in the summary")
    qt = {r["Task"]: r for r in s.make_quantum_table()}
    bad_q = s.make_bad_quantum_tables()
    for label, qs in by.items():
        t = s.tasks[label]
        n = collections.Counter(want_info[q] for q in qs)
        eng.check((t.n_successful, t.n_blocked, t.n_unknown, t.n_failed, t.n_wonky, t.n_expected)
                  == (n["SUCCESSFUL"], n["BLOCKED"], n["UNKNOWN"], n["FAILED"], n["WONKY"], len(qs)), "wrong task counts", f"{label} {t}")
        row = qt[label]
        eng.check((row["Successful"], row["Blocked"], row["Unknown"], row["Failed"], row["Wonky"], row["TOTAL"], row["EXPECTED"])
                  == (n["SUCCESSFUL"], n["BLOCKED"], n["UNKNOWN"], n["FAILED"], n["WONKY"], len(qs), len(qs)), "the quantum table is wrong")
        ids = {kk: [dict(QUANTA[q][1].required) for q in qs if want_info[q] == kk] for kk in n}
        key = repr
        eng.check(sorted((x.data_id for x in t.failed_quanta), key=key) == sorted(ids.get("FAILED", []), key=key)
                  and sorted((x.data_id for x in t.wonky_quanta), key=key) == sorted(ids.get("WONKY", []), key=key),
                  "wrong data IDs of failed quanta")
        eng.check(sorted(t.recovered_quanta, key=key) == sorted(
            (dict(QUANTA[q][1].required) for q in qs
             if want_info[q] == "SUCCESSFUL" and g.get_quantum_info(qp.QuantumKey(label, QUANTA[q][1].required_values))["recovered"]), key=key),
            "wrong recovered quanta")
        for x in t.failed_quanta + t.wonky_quanta:
            (q,) = [q for q in qs if dict(QUANTA[q][1].required) == x.data_id]
            mine = [r for r in runs if q in members[r]]
            eng.check(x.runs == {r: want_run[r, q] for r in mine}, "wrong run statuses in the summary")
            if want_info[q] == "FAILED":
                have = [r for r in mine if (f"{label}_log", QUANTA[q][1], r) in exist]
                eng.check([m for m in x.messages if m.startswith("bad ")] == [f"bad {r} {q}" for r in have], "wrong error messages", f"{x.messages}")
                eng.check(not any(m in ("fine", "meh") for m in x.messages), "messages that are no errors are reported")
                eng.check(len(x.messages) == len(mine), "a missing log is not reported", f"{x.messages}")
        nb = n["FAILED"] + n["WONKY"]
        final_flags = collections.defaultdict(list)
        excs = []
        for q in qs:
            if want_info[q] != "SUCCESSFUL":
                continue
            r = [r for r in runs if q in members[r] and want_run[r, q] not in ("BLOCKED", "METADATA_MISSING")][-1]
            qr = g.get_quantum_info(qp.QuantumKey(label, QUANTA[q][1].required_values))["runs"][r]
            if qr.caveats:
                final_flags[qr.caveats.concise()].append(dict(QUANTA[q][1].required))
                if qr.exception is not None and qr.caveats & QuantumSuccessCaveats.PARTIAL_OUTPUTS_ERROR:
                    excs.append((r, fails[r, q]))
        eng.check({c: sorted(v, key=key) for c, v in t.caveats.items()} == {c: sorted(v, key=key) for c, v in final_flags.items()},
                  "wrong caveats in the summary", f"{t.caveats} {dict(final_flags)}")
        eng.check(sorted((x.run, x.exception.message) for v in t.exceptions.values() for x in v) == sorted(excs), "wrong exceptions in the summary")
        nb += len(excs)
        eng.check(len(bad_q[label]) == nb if nb else label not in bad_q, "the table of bad quanta is incomplete", f"{label} {nb}")
    dby = collections.defaultdict(dict)
    for q in quanta:
        for n, d in keys_of(q):
            dby[n][d] = (q, g.get_dataset_info(qp.DatasetKey(n, d.required_values))["status"].name)
    eng.check(set(s.datasets) == set(dby), "wrong dataset types in the summary")
    dt = {r["Dataset"]: r for r in s.make_dataset_table()}
    bad_d = s.make_bad_dataset_tables()
    for n, entries in dby.items():
        t = s.datasets[n]
        c = collections.Counter(x for _, x in entries.values())
        eng.check((t.n_visible, t.n_shadowed, t.n_predicted_only, t.n_unsuccessful, t.n_cursed, t.n_expected)
                  == (c["VISIBLE"], c["SHADOWED"], c["PREDICTED_ONLY"], c["UNSUCCESSFUL"], c["CURSED"], len(entries)), "wrong dataset counts")
        eng.check(t.producer == QUANTA[next(iter(entries.values()))[0]][0], "wrong producer")
        eng.check(dt[n]["TOTAL"] == len(entries) == dt[n]["EXPECTED"], "the dataset table is wrong")
        # (the repository's own tests want unsuccessful datasets left out of this table)
        rows = [str(r["Status"]) for r in bad_d[n]] if n in bad_d else []
        eng.check(rows.count("CURSED") == c["CURSED"] and len(rows) in (c["CURSED"], c["CURSED"] + c["UNSUCCESSFUL"]),
                  "the table of bad datasets is wrong", f"{n} {rows}")
        if rows:
            eng.reach("bad-datasets")
    back = qp.Summary.model_validate_json(s.model_dump_json())
    eng.check(back == s, "a summary differs after writing and reading")
    if aggregate:
        two = qp.Summary.aggregate([s, back])
        for label, t in s.tasks.items():
            a = two.tasks[label]
            eng.check(all(getattr(a, f) == 2 * getattr(t, f) for f in ("n_successful", "n_blocked", "n_unknown", "n_failed", "n_wonky", "n_expected"))
                      and len(a.recovered_quanta) == 2 * len(t.recovered_quanta)
                      and {c: len(v) for c, v in a.caveats.items()} == {c: 2 * len(v) for c, v in t.caveats.items()}
                      and {c: len(v) for c, v in a.exceptions.items()} == {c: 2 * len(v) for c, v in t.exceptions.items()}, "aggregation lost something")
        for n, t in s.datasets.items():
            a = two.datasets[n]
            eng.check(a.producer == t.producer and all(getattr(a, f) == 2 * getattr(t, f) for f in (
                "n_visible", "n_shadowed", "n_predicted_only", "n_unsuccessful", "n_cursed", "n_expected")), "aggregation lost something")
        eng.check(s == back, "aggregation changed its input")


def order(eng):
    """Graphs must come in chronological order."""
    t = [eng.choice(f"t{k}", [1, 2, 3]) for k in range(2)]
    exist = {(n, d, "r0") for n, d in keys_of("a0")}
    b = Butler(exist, {}, {n for n, _ in keys_of("a0")})
    k, g = outcome(qp.QuantumProvenanceGraph, b, [graph(["a0"], "r0", t[0]), graph(["a0"], "r1", t[1])], read_caveats=None, use_qbb=False)
    if t[0] > t[1]:
        eng.check(k == "exc" and isinstance(g, RuntimeError), "graphs out of order were accepted")
        eng.reach("refused")
    else:
        eng.check(k == "ok", "graphs in order were refused", repr(g))
        eng.reach("accepted")


def cases(tier):
    t = tier == "thorough"
    cap = 1500 if t else 300
    Q = QuantumSuccessCaveats
    cav = [None, Q(0), Q.NO_WORK | Q.ALL_OUTPUTS_MISSING | Q.ANY_OUTPUTS_MISSING, Q.PARTIAL_OUTPUTS_ERROR | Q.ANY_OUTPUTS_MISSING]
    out = [
        Case("one-3runs", report, dict(quanta=["a0"], n_runs=3), "one quantum, three runs", ("wonky", "successful", "recovered", "failed", "unknown"),
             time_cap=cap, validate_every=100),
        Case("one-2runs-collections", report, dict(quanta=["a0"], n_runs=2, colls=[("r0",), ("r1",), ("r1", "r0"), ("r0", "r1"), ("nope",)]),
             "one quantum, two runs, any search order", ("cursed", "shadowed", "visible"), time_cap=cap, validate_every=100),
        Case("chain-1run", report, dict(quanta=["a0", "b0", "e0"], n_runs=1), "chain of three, one run", ("blocked", "predicted_only"),
             time_cap=cap, validate_every=100),
        Case("chain-2runs", report, dict(quanta=["a0", "b0"], n_runs=2, membership=True), "chain of two, two runs with any quanta",
             ("blocked", "recovered"), time_cap=cap, validate_every=400),
        Case("fan-in", report, dict(quanta=["a0", "a1", "c"], n_runs=1, aggregate=True), "fan-in, one run", ("blocked", "bad-datasets"),
             time_cap=cap, validate_every=100),
        Case("caveats", report, dict(quanta=["a0"], n_runs=2, caveats=cav, aggregate=True), "one quantum, two runs, any caveats", ("successful",),
             time_cap=cap, validate_every=200),
        Case("names", report, dict(quanta=["m0"], n_runs=2), "outputs named like metadata and logs", ("failed", "wonky"), time_cap=cap,
             validate_every=100),
        Case("extra", report, dict(quanta=["a0"], n_runs=1, extra=True, colls=[("r0", "old"), ("old", "r0"), ("r0",)]),
             "unpredicted datasets", ("visible",), time_cap=cap, validate_every=50),
        Case("order", order, {}, "any two times", ("refused", "accepted")),
    ]
    if t:
        out += [Case("one-4runs", report, dict(quanta=["a0"], n_runs=4), "one quantum, four runs", ("wonky", "recovered"), time_cap=cap,
                     validate_every=400),
                Case("chain-3x2", report, dict(quanta=["a0", "b0", "c"], n_runs=1, aggregate=True), "branching", ("blocked",), time_cap=cap),
                Case("caveats-2", report, dict(quanta=["a0", "a1"], n_runs=1, caveats=cav, aggregate=True), "two quanta, any caveats",
                     ("successful",), time_cap=cap, validate_every=400)]
    return out
