"""C10: graph-wide edits by a task (and by the builder) change exactly what they say."""

from __future__ import annotations

import uuid

from lsst.daf.butler import DatasetRef
from lsst.pipe.base.connections import QuantaAdjuster
from lsst.pipe.base.quantum_graph_skeleton import DatasetKey, PrerequisiteDatasetKey, QuantumGraphSkeleton, QuantumKey

from symx.core import outcome
from symx.runner import Case

from . import c09_graph_builder as gb

ASSUMPTIONS = ["a two-task skeleton (t1 per detector, t3 per detector reading t1's aux); edits are symbolic choices; edits of "
               "quanta that are no longer in the graph are outside the claim"]


class Model:
    def __init__(self):
        self.quanta, self.data, self.ins, self.prod, self.pre = set(), set(), set(), {}, {}


def start(eng, n, cross):
    g = gb.pipeline(False)
    sk = QuantumGraphSkeleton(g.tasks)
    m = Model()
    for k in range(n):
        for lab in ("t1", "t3"):
            sk.add_quantum_node(lab, gb.D[k])
            m.quanta.add((lab, k))
        for dtn in ("raw", "mid", "aux", "end"):
            sk.add_dataset_node(dtn, gb.D[k])
            m.data.add((dtn, k))
        pid = uuid.UUID(int=100 + k)
        r = DatasetRef(g.dataset_types["pre"].dataset_type, gb.D[k], run="in", id=pid)
        sk.add_prerequisite_node(r)
        m.pre[k] = r
    for k in range(n):
        for lab, i, o in (("t1", "raw", ("mid", "aux")), ("t3", "aux", ("end",))):
            qk = QuantumKey(lab, gb.D[k].required_values)
            sk.add_input_edge(qk, DatasetKey(i, gb.D[k].required_values))
            m.ins.add(((lab, k), (i, k)))
            for x in o:
                sk.add_output_edge(qk, DatasetKey(x, gb.D[k].required_values))
                m.prod[x, k] = (lab, k)
    if cross:
        for k in range(n):
            for j in range(n):
                if j != k and eng.bool(f"cross{k}{j}"):
                    sk.add_input_edge(QuantumKey("t3", gb.D[k].required_values), DatasetKey("aux", gb.D[j].required_values))
                    m.ins.add((("t3", k), ("aux", j)))
    return g, sk, m


def key(x):
    return DatasetKey(x[0], gb.D[x[1]].required_values)


def compare(eng, g, sk, m, n):
    for lab in ("t1", "t3"):
        a = QuantaAdjuster(lab, g, sk, None)
        got = {d["detector"] for d in a.iter_data_ids()}
        eng.check(got == {k for (l, k) in m.quanta if l == lab}, "quanta of the task are wrong", f"{lab} {got}")
        for k in got:
            ins = {(dt, d["detector"]) for dt, c in (("raw", "raw"), ("aux", "aux"), ("fin", "fin"))
                   for d in a.get_inputs(gb.D[k]).get(c, [])}
            want = {x for q, x in m.ins if q == (lab, k) and x[0] != "pre"}
            eng.check(ins == want, "inputs of a quantum are wrong", f"{lab}{k} {ins} {want}")
            outs = {(c, d["detector"]) for c, ds in a.get_outputs(gb.D[k]).items() for d in ds}
            eng.check(outs == {x for x, q in m.prod.items() if q == (lab, k)}, "outputs of a quantum are wrong", f"{lab}{k}")
            pre = a.get_prerequisite_inputs(gb.D[k])
            pre_ids = {i for c in pre.values() for i in c}
            eng.check(pre_ids == {m.pre[x[1]].id for q, x in m.ins if q == (lab, k) and x[0] == "pre"}, "prerequisites are wrong")
            for c in pre.values():
                for i, d in c.items():
                    eng.check(d == gb.D[i.int - 100], "prerequisite data ID is wrong")
            eng.check(a.expand_quantum_data_id(gb.te.data_id(k)).hasRecords(), "data ID not expanded")
    for dtn in ("raw", "mid", "aux", "end"):
        for k in range(n):
            eng.check((key((dtn, k)) in sk) == ((dtn, k) in m.data), "datasets of the graph are wrong", f"{dtn}{k}")
            if (dtn, k) in m.data:
                p = sk.get_producer_of(key((dtn, k)))
                p = None if p is None else (p.task_label, p.data_id_values[1])
                eng.check(p == m.prod.get((dtn, k)), "producer of a dataset is wrong", f"{dtn}{k} {p}")


def edits(eng, n, ops, cross):
    g, sk, m = start(eng, n, cross)
    adj = {lab: QuantaAdjuster(lab, g, sk, None) for lab in ("t1", "t3")}
    removed = {"t1": 0, "t3": 0}
    for s, op in enumerate(ops):
        if op == "any":
            op = eng.choice(f"op{s}", ("remove", "input", "prereq", "move"))
        k = eng.choice(f"q{s}", range(n))
        if op == "remove":
            lab = eng.choice(f"lab{s}", ("t1", "t3"))
            eng.assume((lab, k) in m.quanta)
            kind, v = outcome(adj[lab].remove_quantum, gb.te.data_id(k))
            eng.check(kind == "ok", "removing a quantum failed", repr(v))
            m.quanta.discard((lab, k))
            gone = {x for x, q in m.prod.items() if q == (lab, k)}
            m.data -= gone
            m.prod = {x: q for x, q in m.prod.items() if x not in gone}
            m.ins = {(q, x) for q, x in m.ins if q != (lab, k) and x not in gone}
            removed[lab] += 1
            eng.reach("removed")
        elif op == "input":
            eng.assume(("t3", k) in m.quanta)
            d = eng.choice(f"d{s}", range(n))
            kind, v = outcome(adj["t3"].add_input, gb.te.data_id(k), "aux", gb.te.data_id(d))
            if ("aux", d) in m.data:
                eng.check(kind == "ok", "adding an input failed", repr(v))
                m.ins.add((("t3", k), ("aux", d)))
                eng.reach("input")
            else:
                eng.check(kind == "exc" and isinstance(v, LookupError), "an input that is not in the graph was added")
                eng.reach("input-refused")
        elif op == "prereq":
            eng.assume(("t3", k) in m.quanta)
            d = eng.choice(f"d{s}", range(n + 1))
            kind, v = outcome(adj["t3"].add_prerequisite_input, gb.te.data_id(k), "pre", uuid.UUID(int=100 + d))
            if d < n:
                eng.check(kind == "ok", "adding a prerequisite failed", repr(v))
                m.ins.add((("t3", k), ("pre", d)))
                eng.reach("prereq")
            else:
                eng.check(kind == "exc" and isinstance(v, LookupError), "a prerequisite that is not in the graph was added")
        else:
            eng.assume(("t1", k) in m.quanta)
            d = eng.choice(f"d{s}", range(n))
            conn = eng.choice(f"conn{s}", ("mid", "aux"))
            kind, v = outcome(adj["t1"].move_output, gb.te.data_id(k), conn, gb.te.data_id(d))
            if (conn, d) in m.data:
                eng.check(kind == "ok", "moving an output failed", repr(v))
                m.prod[conn, d] = ("t1", k)
                eng.reach("moved")
            else:
                eng.check(kind == "exc" and isinstance(v, LookupError), "an output that is not in the graph was moved")
        compare(eng, g, sk, m, n)
    eng.check({lab: a.n_removed for lab, a in adj.items()} == removed, "count of removed quanta is wrong")


def prune(eng, n):
    """remove_unanchored_quanta / orphan removal / overall inputs on any bipartite graph t1 -> aux -> t3."""
    g, sk, m = start(eng, n, True)
    for k in range(n):
        if eng.bool(f"cut{k}"):  # t3 reads nothing of its own detector
            sk.remove_input_edges(QuantumKey("t3", gb.D[k].required_values), [key(("aux", k))])
            m.ins.discard((("t3", k), ("aux", k)))
    for k in range(n):
        if eng.bool(f"gone{k}"):
            sk.remove_quantum_node(QuantumKey("t3", gb.D[k].required_values), remove_outputs=True)
            m.quanta.discard(("t3", k))
            m.data.discard(("end", k))
            m.prod.pop(("end", k))
            m.ins = {(q, x) for q, x in m.ins if q != ("t3", k)}
    for k in range(n):
        ref = DatasetRef(g.dataset_types["raw"].dataset_type, gb.D[k], run="in", id=uuid.UUID(int=7 + k))
        sk.set_dataset_ref(ref)
    drop_pre = bool(eng.bool("orphans"))
    if drop_pre:
        sk.remove_orphan_datasets()
        eng.check(not any(isinstance(x, PrerequisiteDatasetKey) for x in sk), "an unused prerequisite is kept")
        eng.check(all(key(x) in sk for x in m.prod), "a produced dataset was removed as orphan")
        eng.check(all(key(x) in sk for _, x in m.ins), "a used dataset was removed as orphan")
    anchored = {m.prod[x] for q, x in m.ins if q[0] == "t3" and x in m.prod}
    unanchored = {q for q in m.quanta if q[0] == "t1"} - anchored
    lost = {x for x, q in m.prod.items() if q in unanchored}
    n_out = sk.remove_unanchored_quanta("t1", "t3")
    eng.check(n_out.get("t1", 0) == len(unanchored) and sum(n_out.values()) == len(unanchored), "count of pruned quanta is wrong",
              f"{n_out} {unanchored}")
    left = {q for q in m.quanta if q[0] == "t1"} - unanchored
    if left:
        eng.check({x.data_id_values[1] for x in sk.get_quanta("t1")} == {k for _, k in left}, "pruned the wrong quanta")
    else:
        eng.check(not sk.has_task("t1"), "a task without quanta is kept")
    eng.check({(x.parent_dataset_type_name, x.data_id_values[1]) for x in sk if isinstance(x, DatasetKey)
               and x.parent_dataset_type_name in ("mid", "aux")} == {x for x in m.data if x[0] in ("mid", "aux")} - lost,
              "datasets of pruned quanta remain or others are gone")
    eng.check(len({x for x in sk.get_quanta("t3")}) == len([q for q in m.quanta if q[0] == "t3"]), "anchor quanta lost")
    sk.remove_orphan_datasets()
    for k in range(n):
        eng.check((key(("raw", k)) in sk) == (("t1", k) in left), "overall inputs of pruned quanta remain or others are gone")
    eng.reach("pruned" if unanchored else "kept")
    top = {x for x in sk.extract_overall_inputs()}
    want = {key(("raw", k)) for _, k in left}
    eng.check(top == want, "overall inputs are wrong", f"{top} {want}")


def cases(tier):
    t = tier == "thorough"
    cap = 3000 if t else 500
    out = [
        Case("edit-2", edits, dict(n=2, ops=("any", "any"), cross=False), "2 detectors, two edits",
             ("removed", "input", "input-refused", "prereq", "moved"), time_cap=cap),
        Case("edit-cross", edits, dict(n=2, ops=("any",), cross=True), "2 detectors, any cross reads, one edit", ("removed", "moved"),
             time_cap=cap),
        Case("remove-move", edits, dict(n=2, ops=("move", "remove", "any"), cross=False), "move, remove, anything", ("moved", "removed"),
             time_cap=cap),
        Case("prune-2", prune, dict(n=2), "all t1->t3 graphs on 2+2 quanta", ("pruned", "kept"), time_cap=cap),
        Case("prune-3", prune, dict(n=3), "all t1->t3 graphs on 3+3 quanta", ("pruned", "kept"), time_cap=cap, max_paths=10**9),
    ]
    if t:
        out += [Case("edit-3", edits, dict(n=3, ops=("any", "any"), cross=False), "3 detectors, two edits", ("removed",), time_cap=cap,
                     validate_every=500),
                Case("edit-2x3", edits, dict(n=2, ops=("any", "any", "any"), cross=False), "3 edits", ("removed",), time_cap=cap,
                     validate_every=500)]
    return out
