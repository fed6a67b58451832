"""C09: the predicted graph holds exactly the work that remains to be done."""

from __future__ import annotations

import contextlib
import uuid

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler.datastore.record_data import DatastoreRecordData
from lsst.daf.butler import CollectionType, DataCoordinate, DatasetRef, MissingCollectionError, MissingDatasetTypeError
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.quantum_graph_builder import (
    InitInputMissingError, OutputExistsError, QuantumGraphBuilder, QuantumGraphBuilderError)
from lsst.pipe.base.quantum_graph_skeleton import QuantumGraphSkeleton

from symx.core import Stub, outcome
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = [
    "a four-task pipeline (two independent parts) over two detectors; which datasets exist where is symbolic (asked of a stand-in butler and of a "
    "minimal data-ID generator); the SQL query that generates data IDs is not encoded",
]
SC, U = te.SC, te.UNIVERSE
DET, INS = ("instrument", "detector"), ("instrument",)


UNEXPANDED: list = []


class C1(PipelineTaskConnections, dimensions=DET):
    raw = cT.Input(name="raw", storageClass=SC, dimensions=DET)
    mid = cT.Output(name="mid", storageClass=SC, dimensions=DET)
    aux = cT.Output(name="aux", storageClass=SC, dimensions=DET)
    schema = cT.InitOutput(name="schema", storageClass=SC)
    drop = None

    def adjustQuantum(self, inputs, outputs, label, data_id):
        super().adjustQuantum(inputs, outputs, label, data_id)
        UNEXPANDED.extend(d for d in (data_id, *(r.dataId for _, rs in inputs.values() for r in rs)) if not d.hasRecords())
        f = C1.drop
        return ({}, {}) if f is None else f(inputs, outputs, data_id)


class C2(PipelineTaskConnections, dimensions=INS):
    mid = cT.Input(name="mid", storageClass=SC, dimensions=DET, multiple=True, minimum=1)
    fin = cT.Output(name="fin", storageClass=SC, dimensions=INS)
    schema = cT.InitInput(name="schema", storageClass=SC)
    drop = None

    def __init__(self, *, config=None):
        if config.need2:
            import dataclasses

            self.mid = dataclasses.replace(self.mid, minimum=2)

    def adjustQuantum(self, inputs, outputs, label, data_id):
        super().adjustQuantum(inputs, outputs, label, data_id)
        f = C2.drop
        return ({}, {}) if f is None else f(inputs, outputs, data_id)


class C3(PipelineTaskConnections, dimensions=DET):
    fin = cT.Input(name="fin", storageClass=SC, dimensions=INS)
    aux = cT.Input(name="aux", storageClass=SC, dimensions=DET, minimum=0)
    aux2 = cT.Input(name="aux", storageClass=SC, dimensions=DET, minimum=0)
    pre = cT.PrerequisiteInput(name="pre", storageClass=SC, dimensions=DET, minimum=0)
    end = cT.Output(name="end", storageClass=SC, dimensions=DET)
    ext = cT.InitInput(name="ext", storageClass=SC)
    drop = None

    def adjustQuantum(self, inputs, outputs, label, data_id):
        super().adjustQuantum(inputs, outputs, label, data_id)
        f = C3.drop
        return ({}, {}) if f is None else f(inputs, outputs, data_id)


class C4(PipelineTaskConnections, dimensions=INS):
    lin = cT.Input(name="lin", storageClass=SC, dimensions=INS)
    lout = cT.Output(name="lout", storageClass=SC, dimensions=INS)


class Cf1(PipelineTaskConfig, pipelineConnections=C1):
    pass


class Cf2(PipelineTaskConfig, pipelineConnections=C2):
    from lsst.pex.config import Field

    need2 = Field("two inputs needed", dtype=bool, default=False)


class Cf3(PipelineTaskConfig, pipelineConnections=C3):
    pass


class Cf4(PipelineTaskConfig, pipelineConnections=C4):
    pass


class T1(PipelineTask):
    ConfigClass = Cf1
    _DefaultName = "t1"


class T2(PipelineTask):
    ConfigClass = Cf2
    _DefaultName = "t2"


class T3(PipelineTask):
    ConfigClass = Cf3
    _DefaultName = "t3"


class T4(PipelineTask):
    ConfigClass = Cf4
    _DefaultName = "t4"


_IREC = U["instrument"].RecordClass(name="I", detector_max=9, visit_max=9, exposure_max=9, class_name="x")
_DREC = [U["detector"].RecordClass(instrument="I", id=k, full_name=f"d{k}") for k in range(3)]
D = [te.data_id(k).expanded({"instrument": _IREC, "detector": _DREC[k]}) for k in range(3)]
I0 = DataCoordinate.standardize(instrument="I", universe=U).expanded({"instrument": _IREC})
BD = [te.data_id(k) for k in range(3)]
B0 = DataCoordinate.standardize(instrument="I", universe=U)
_graphs: dict = {}


def pipeline(need2):
    if need2 not in _graphs:
        g = PipelineGraph(universe=U)
        c2 = Cf2()
        c2.need2 = need2
        for label, cls, cfg in (("t1", T1, Cf1()), ("t2", T2, c2), ("t3", T3, Cf3()), ("t4", T4, Cf4())):
            cfg.saveLogOutput = False
            g.add_task(label, cls, cfg)
        g.resolve(dimensions=U, dataset_types={})
        _graphs[need2] = g
    return _graphs[need2]


class FakeButler(Stub):
    """Registry and collections of a repository with runs "old" and (maybe) "out"."""

    def __init__(self, eng, out_exists, empties):
        self.eng, self.out_exists, self.empties = eng, out_exists, empties
        self.dimensions = U
        self.run = None
        self.wrong = []
        self.registry = self.collections = self._datastore = self

    defaults = ("input",)

    def clone(self, collections=None):
        return self

    def caching_context(self):
        return contextlib.nullcontext()

    def getCollectionType(self, name):
        if name == "out" and not self.out_exists:
            raise MissingCollectionError(name)
        return CollectionType.RUN

    def query(self, expr=None, flatten_chains=False):
        if expr is None:
            return contextlib.nullcontext(self)
        names = [expr] if isinstance(expr, str) else list(expr)
        for n in names:
            if n == "out" and not self.out_exists:
                raise MissingCollectionError(n)
        return names

    def get_dataset_type(self, name):
        raise MissingDatasetTypeError(name)

    getDatasetType = get_dataset_type

    def find_dataset(self, dataset_type, data_id=None, *, collections=None, **kw):
        name = dataset_type if isinstance(dataset_type, str) else dataset_type.name
        if name == "pre":
            if list(collections) != ["input"]:
                self.wrong.append(f"prerequisites looked for in {collections}")
            return self.world.ref("pre", data_id["detector"], "input") if self.world.pre[data_id["detector"]] else None
        for c in [collections] if isinstance(collections, str) else collections:
            ref = self.empties(name, c)
            if ref is not None:
                return ref
        return None

    def export_records(self, refs):
        self.exported = list(refs)
        return {"ds": DatastoreRecordData(records={r.id: {} for r in self.exported}), "other": DatastoreRecordData(records={})}


class Builder(QuantumGraphBuilder):
    """Predicts every quantum of the fixed data IDs; reports what exists."""

    def __init__(self, *args, world, **kwargs):
        self.world = world
        super().__init__(*args, **kwargs)

    def process_subgraph(self, subgraph):
        w = self.world
        sk = QuantumGraphSkeleton(subgraph.tasks)
        for q in w.quanta:
            label, k = q
            if label not in subgraph.tasks:
                continue
            sk.add_quantum_node(label, B0 if k is None else BD[k])  # records are attached later
        for q in w.quanta:
            label, k = q
            if label not in subgraph.tasks:
                continue
            node = subgraph.tasks[label]
            qk = next(x for x in sk.get_quanta(label) if x.data_id_values == w.data(k).required_values)
            for dtn, dk in w.inputs[q]:
                key = sk.add_dataset_node(dtn, w.data(dk))
                sk.add_input_edge(qk, key)
                if dtn == "raw" and w.raw[dk] or dtn == "lin":
                    sk.set_dataset_ref(w.ref(dtn, dk, "input"))
            for dtn, dk in w.outputs[q]:
                key = sk.add_dataset_node(dtn, w.data(dk))
                sk.add_output_edge(qk, key)
            assert {e.parent_dataset_type_name for e in node.iter_all_outputs()} == {d for d, _ in w.outputs[q]}
        for q in w.quanta:
            if q[0] not in subgraph.tasks:
                continue
            for dtn, dk in w.outputs[q]:
                if (r := w.found(dtn, dk, self.skip_existing_in)) is not None:
                    sk.set_output_for_skip(r)
                if self.output_run_exists and (r := w.found(dtn, dk, ["out"])) is not None:
                    sk.set_output_in_the_way(r)
        return sk


class World:
    def __init__(self, eng, n_det, free, out_exists, graph):
        self.eng, self.graph, self.out_exists = eng, graph, out_exists
        self.quanta = [("t1", k) for k in range(n_det)] + [("t2", None)] + [("t3", k) for k in range(n_det)]
        self.quanta.append(("t4", None))  # nothing to do with the others
        self.inputs, self.outputs = {}, {}
        for lab, k in self.quanta:
            self.inputs[lab, k] = {"t1": [("raw", k)], "t2": [("mid", d) for d in range(n_det)], "t3": [("fin", None), ("aux", k)],
                                    "t4": [("lin", None)]}[lab]
            self.outputs[lab, k] = ([("mid", k), ("aux", k)] if lab == "t1" else [("fin", None)] if lab == "t2" else [("end", k)] if lab == "t3"
                                    else [("lout", None)])
            self.outputs[lab, k] = self.outputs[lab, k] + [(f"{lab}_metadata", k)]
        self.pre = {k: bool(eng.bool(f"pre{k}")) if "pre" in free else False for k in range(n_det)}
        self.raw = {k: bool(eng.bool(f"raw{k}")) if "raw" in free else True for k in range(n_det)}
        self.where = {}
        for q in self.quanta:
            for dtn, dk in self.outputs[q]:
                opts = free.get(dtn, ("",))
                opts = [o for o in opts if out_exists or "R" not in o] or [""]
                self.where[dtn, dk] = eng.choice(f"at_{dtn}_{dk}", opts)
        self.refs = {}

    def data(self, k):
        return I0 if k is None else D[k]

    def ref(self, dtn, dk, run):
        key = (dtn, dk, run)
        if key not in self.refs:
            self.refs[key] = DatasetRef(self.graph.dataset_types[dtn].dataset_type, self.data(dk), run=run,
                                        id=uuid.uuid5(uuid.UUID(int=1), f"{dtn}{dk}{run}"))
        return self.refs[key]

    def found(self, dtn, dk, collections):
        for c in collections:
            if {"out": "R", "old": "S"}[c] in self.where[dtn, dk]:
                return self.ref(dtn, dk, c)
        return None



def run(eng, n_det, free, skip=((),), clobber=(False,), retained=(None,), prune=(None,), out_exists=(True,), need2=(False,),
        init_free=False, drops=()):
    need2 = eng.choice("need2", need2)
    graph = pipeline(need2)
    exists = eng.choice("run_exists", out_exists)
    skip_in = list(eng.choice("skip_in", skip))
    clob = eng.choice("clobber", clobber)
    keep_types = eng.choice("retained", retained)
    pr = eng.choice("prune", prune)
    w = World(eng, n_det, free, exists, graph)
    init_at = {}

    def empties(name, c):
        if name not in init_at:
            opts = ("", "S", "R", "RS") if init_free and name in ("t1_config", "schema") else (("RS",) if exists else ("S",))
            if name == "ext":
                opts = ("", "-") if init_free else ("-",)
            init_at[name] = eng.choice(f"init_{name}", [o for o in opts if exists or "R" not in o])
        if {"out": "R", "old": "S", "input": "-"}[c] not in init_at[name]:
            return None
        key = (name, None, c)
        if key not in w.refs:
            dt = graph.dataset_types[name].dataset_type if name in graph.dataset_types else None
            if dt is None:
                from lsst.daf.butler import DatasetType

                dt = DatasetType(name, U.empty, "Packages")
            w.refs[key] = DatasetRef(dt, DataCoordinate.make_empty(U), run=c, id=uuid.uuid5(uuid.UUID(int=2), name + c))
        return w.refs[key]

    C1.drop = C2.drop = C3.drop = None
    UNEXPANDED.clear()
    dropped = set()  # (dataset type, k) removed from t1's outputs / t2's inputs by the tasks themselves
    if "out" in drops:
        for k in range(n_det):
            for dtn in ("mid", "aux"):
                if eng.bool(f"drop_{dtn}{k}"):
                    dropped.add((dtn, k))

        def f1(inputs, outputs, data_id):
            k = data_id["detector"]
            return {}, {n: (c, []) for n, (c, r) in outputs.items() if (n, k) in dropped}

        C1.drop = f1
    not_wanted = set()
    if "in" in drops:
        for k in range(n_det):
            if eng.bool(f"unwanted{k}"):
                not_wanted.add(k)
        if "fin" in drops and eng.bool("drop_fin"):
            dropped.add(("fin", None))

        def f2(inputs, outputs, data_id):
            c, r = inputs["mid"]
            return ({"mid": (c, [x for x in r if x.dataId["detector"] not in not_wanted])},
                    {"fin": (outputs["fin"][0], [])} if ("fin", None) in dropped else {})

        C2.drop = f2
    if "aux" in drops:
        unaux = {k for k in range(n_det) if eng.bool(f"noaux{k}")}

        def f3(inputs, outputs, data_id):
            if data_id["detector"] not in unaux:
                return {}, {}
            return {n: (c, []) for n, (c, r) in inputs.items() if n in ("aux", "aux2")}, {}

        C3.drop = f3
    butler = FakeButler(eng, exists, empties)
    butler.world = w

    def build():
        b = Builder(graph, butler, world=w, input_collections=["input"], output_run="out", skip_existing_in=skip_in,
                    retained_dataset_types=keep_types, prune_unanchored_quanta=pr, clobber=clob)
        return b.finish(output="chain", metadata={"k": 1})

    try:
        kind, v = outcome(build)
    finally:
        C1.drop = C2.drop = C3.drop = None
    # ---- what should be there
    skip_live = [c for c in skip_in if c != "out" or exists]
    if "out" in skip_in and not exists:
        skip_live = []  # unknown collection: nothing to skip
    skipped = {q for q in w.quanta if w.found(f"{q[0]}_metadata", q[1], skip_live) is not None}
    producer = {o: q for q in w.quanta for o in w.outputs[q]}
    if keep_types is not None:
        import fnmatch

        kept = {d for d in ("raw", "mid", "aux", "fin", "end") if any(fnmatch.fnmatchcase(d, p) for p in keep_types)}
        todo = [q for q in w.quanta if q not in skipped]
        while todo:
            q = todo.pop()
            for dtn, dk in w.inputs[q]:
                p = producer.get((dtn, dk))
                if p in skipped and dtn not in kept:
                    skipped.discard(p)
                    todo.append(p)
    really_clob = clob and exists
    blocked_must, blocked_may = False, False
    keep, avail, refs = [], {}, {("lin", None): w.ref("lin", None, "input").id}
    for k in range(n_det):
        if w.raw[k]:
            refs["raw", k] = w.ref("raw", k, "input").id
    for q in w.quanta:
        if q in skipped:
            for dtn, dk in w.outputs[q]:
                r = w.found(dtn, dk, skip_live)
                if r is not None:
                    refs[dtn, dk] = r.id
            continue
        ins = [x for x in w.inputs[q] if x in refs]
        if q[0] == "t3" and w.pre[q[1]]:
            refs["pre", q[1]] = w.ref("pre", q[1], "input").id
            ins.append(("pre", q[1]))
        if q[0] == "t2" and "in" in drops:
            got = [x for x in ins if x[1] not in not_wanted]
        elif q[0] == "t3" and "aux" in drops and q[1] in unaux:
            got = [x for x in ins if x[0] != "aux"]
        else:
            got = ins
        n_need = [x for x in ins if x[0] not in ("aux", "pre")]
        enough = len(n_need) >= (2 if q[0] == "t2" and need2 else 1)
        in_way = exists and any(w.found(dtn, dk, ["out"]) is not None for dtn, dk in w.outputs[q])
        blocked_may |= in_way and not really_clob
        if not enough:
            continue
        blocked_must |= in_way and not really_clob
        if not got:
            avail[q] = "no-input-error"
            keep.append(q)
            continue
        keep.append(q)
        avail[q] = got
        for dtn, dk in w.outputs[q]:
            if (dtn, dk) in dropped:
                continue
            r = w.found(dtn, dk, ["out"]) if exists else None
            refs[dtn, dk] = r.id if r is not None else None  # None: a new ID
    missing_init = False
    for lab in ("t1", "t2", "t3", "t4"):
        if not any(q[0] == lab for q in keep) and any(q[0] == lab for q in skipped):
            for name in (f"{lab}_config", "schema") if lab == "t1" else (f"{lab}_config",):
                c = init_at.get(name, "")
                missing_init |= not any({"out": "R", "old": "S"}[s] in c for s in skip_live)
    missing_init |= any(q[0] == "t3" for q in keep) and "-" not in init_at.get("ext", "-")
    if kind == "exc":
        if isinstance(v, OutputExistsError):
            eng.check(blocked_may, "claims an output is in the way although none is", repr(v))
            eng.reach("in-the-way")
        elif isinstance(v, InitInputMissingError):
            eng.check(missing_init, "claims a missing init dataset", repr(v))
            eng.reach("init-missing")
        elif isinstance(v, QuantumGraphBuilderError):
            eng.check("no-input-error" in avail.values(), "unexpected builder error", repr(v))
            eng.reach("no-inputs")
        else:
            eng.check(False, "graph building failed", repr(v))
        return
    eng.check(not UNEXPANDED, "a task is shown data IDs without dimension records while its quanta are made", str(UNEXPANDED))
    eng.check(not butler.wrong, "prerequisite inputs are not taken from the input collections", str(butler.wrong))
    eng.check(not blocked_must, "a quantum would overwrite existing outputs although clobbering is off")
    eng.check(not missing_init, "a task's quanta were all skipped although its init-outputs are nowhere to be found")
    eng.check("no-input-error" not in avail.values(), "a quantum without inputs was kept")
    if pr is not None:
        src, anchor = pr
        deps = {q: {producer[x] for x in avail[q] if producer.get(x) in keep} for q in keep}

        def ancestors(q, seen):
            for p in deps[q]:
                if p not in seen:
                    seen.add(p)
                    ancestors(p, seen)
            return seen

        anchored = set()
        for q in keep:
            if q[0] == anchor:
                ancestors(q, anchored)
        gone = {q for q in keep if q[0] == src and q not in anchored}
        changed = True
        while changed:
            extra = {q for q in keep if q not in gone and deps[q] & gone}
            gone |= extra
            changed = bool(extra)
        if gone:
            eng.reach("pruned")
        keep = [q for q in keep if q not in gone]
    # ---- compare
    comp = v
    by = {}
    for qid, m in comp.quantum_datasets.items():
        eng.check(m.quantum_id == qid, "quantum stored under another ID")
        k = m.data_coordinate[1] if len(m.data_coordinate) > 1 else None
        eng.check((m.task_label, k) not in by, "a quantum appears twice")
        by[m.task_label, k] = m
    eng.check(set(by) == set(keep), "the graph's quanta are not exactly those with work left to do",
              f"graph {sorted(by, key=str)} expected {sorted(keep, key=str)} skipped {sorted(skipped, key=str)}")
    ids = {}
    for q in keep:
        for name, ds in by[q].outputs.items():
            for d in ds:
                kk = d.data_coordinate[1] if len(d.data_coordinate) > 1 else None
                ids[d.dataset_type_name, kk] = d.dataset_id
                eng.check(d.run == "out", "an output is predicted in another run")
    eng.check(len(set(ids.values())) == len(ids), "two outputs share a dataset ID")
    for q in keep:
        m = by[q]
        want_out = {x for x in w.outputs[q] if x not in dropped}
        got_out = {(d.dataset_type_name, d.data_coordinate[1] if len(d.data_coordinate) > 1 else None)
                   for ds in m.outputs.values() for d in ds}
        eng.check(got_out == want_out, "predicted outputs of a quantum are wrong", f"{q}: {got_out} {want_out}")
        for x in want_out:
            if refs[x] is not None:
                eng.check(ids[x] == refs[x], "an existing output to be clobbered got another dataset ID")
        got_in = {}
        n = 0
        for ds in m.inputs.values():
            for d in ds:
                got_in[d.dataset_type_name, d.data_coordinate[1] if len(d.data_coordinate) > 1 else None] = d
                n += 1
        if q[0] == "t3":
            eng.check([d.dataset_id for d in m.inputs["aux"]] == [d.dataset_id for d in m.inputs["aux2"]],
                      "two connections to one dataset type got different datasets", str(q))
            n -= len(m.inputs["aux2"])
        eng.check(set(got_in) == set(avail[q]) and n == len(avail[q]), "inputs of a quantum are not those that will exist",
                  f"{q}: {sorted(got_in, key=str)} expected {avail[q]}")
        for x, d in got_in.items():
            want = ids[x] if producer.get(x) in keep and producer.get(x) not in skipped else refs[x]
            eng.check(d.dataset_id == want, "an input refers to another dataset than the one produced or found", f"{q} {x}")
    # datastore records of exactly the overall inputs
    made = set(ids.values())
    init_of = {m.task_label: m for m in comp.init_quanta.root}
    init_ids = {lab: {c: [d.dataset_id for d in ds] for c, ds in m.inputs.items()} for lab, m in init_of.items() if lab}
    init_made = {d.dataset_id for m in comp.init_quanta.root for ds in m.outputs.values() for d in ds}

    def recorded(m):
        return {i for r in m.datastore_records.values() for i in r.dataset_ids}

    for q in keep:
        mine = {d.dataset_id for ds in by[q].inputs.values() for d in ds} - made
        may = mine | {i for v in init_ids[q[0]].values() for i in v} - init_made
        eng.check(mine <= recorded(by[q]) <= may, "a quantum does not carry the datastore records of its overall inputs", str(q))
    for lab, m in init_of.items():
        if lab:
            eng.check(recorded(m) == {i for v in init_ids[lab].values() for i in v} - init_made,
                      "a task does not carry the datastore records of its overall init-inputs", lab)
    if "t2" in init_ids:
        want = {d.dataset_id for m in comp.init_quanta.root for ds in m.outputs.values() for d in ds
                if d.dataset_type_name == "schema"}
        if not want:
            at = [c for c in skip_live if {"out": "R", "old": "S"}[c] in init_at.get("schema", "")]
            want = {w.refs["schema", None, at[0]].id}
            eng.reach("init-skipped")
        eng.check(init_ids["t2"] == {"schema": list(want)}, "init-input of a task is not the dataset its producer (or an earlier run) made")
    if "t3" in init_ids:
        eng.check(init_ids["t3"] == {"ext": [w.refs["ext", None, "input"].id]}, "overall init-input is not the dataset found")
    # dimension records of every data ID of the graph
    have = {(e, tuple(r.dataId.required_values)) for e, rs in comp.dimension_data.records.items() for r in rs}
    for q in keep:
        eng.check(("instrument", ("I",)) in have, "the graph lacks dimension records of its data IDs")
        eng.check(q[1] is None or ("detector", ("I", q[1])) in have, "the graph lacks dimension records of its data IDs", str(q))
    outside = {d.dataset_id for q in keep for ds in by[q].inputs.values() for d in ds} - set(ids.values())
    eng.check(outside <= {r.id for r in butler.exported}, "datastore records of an overall input were not fetched")
    qid_of = {q: m.quantum_id for q, m in by.items()}
    edges = {tuple(e) for e in comp.thin_graph.edges}
    want_edges = {(qid_of[producer[x]], qid_of[q]) for q in keep for x in avail[q] if producer.get(x) in qid_of}
    eng.check(edges == want_edges, "dependencies between quanta do not follow their datasets")
    eng.check({t.quantum_id for ts in comp.thin_graph.quanta.values() for t in ts} == set(comp.quantum_datasets),
              "summary graph lists other quanta")
    h = comp.header
    eng.check((list(h.inputs), h.output_run, h.output, h.metadata.get("k")) == (["input"], "out", "chain", 1),
              "collections or metadata of the graph are not those asked for")
    eng.check(comp.header.n_quanta == len(keep), "header quantum count is wrong")
    init_tasks = {m.task_label for m in comp.init_quanta.root} - {""}
    eng.check(init_tasks == {q[0] for q in keep}, "init-quanta are not those of the tasks with quanta")
    for m in comp.init_quanta.root:
        for ds in m.outputs.values():
            for d in ds:
                at = init_at.get(d.dataset_type_name, "")
                if "R" in at:
                    eng.check(d.dataset_id == getattr(w.refs.get((d.dataset_type_name, None, "out")), "id", None),
                              "init-output in the output run not reused")
                eng.check(d.run == "out", "an init-output is predicted in another run")
    eng.reach("built")
    if skipped:
        eng.reach("skipped")
    if any(q not in keep and q not in skipped for q in w.quanta):
        eng.reach("no-work")
    if any(refs.get(x) for q in keep for x in w.outputs[q]):
        eng.reach("clobbered")


ALL = ("", "R", "S", "RS")
RS = ("", "S")


def cases(tier):
    t = tier == "thorough"
    md = {"t1_metadata": RS, "t2_metadata": RS, "t3_metadata": RS}
    big = 3000 if t else 500
    sk = (("old",),)
    out = [
        Case("inputs", run, dict(n_det=2, free={"raw": 1, "pre": 1}, need2=(False, True), out_exists=(False, True)),
             "which overall and prerequisite inputs exist", ("built", "no-work"), time_cap=big),
        Case("skip-t1", run, dict(n_det=2, free={"t1_metadata": RS, "mid": RS, "aux": RS, "raw": 1}, skip=sk, need2=(False, True)),
             "first task partly done: any subset of its datasets", ("built", "skipped", "no-work"), time_cap=big),
        Case("skip-chain", run, dict(n_det=2, free={**md, "fin": RS, "mid": RS}, skip=sk), "any subset of metadata, mid, fin",
             ("built", "skipped", "no-work"), time_cap=big),
        Case("where", run, dict(n_det=1, free={"t1_metadata": ALL, "mid": ALL, "t2_metadata": ALL}, clobber=(False, True),
                                skip=((), ("old",), ("out",), ("out", "old"), ("old", "out")), out_exists=(True,)),
             "datasets in either run, all skip collections, clobber on/off", ("built", "skipped", "in-the-way", "clobbered"),
             time_cap=big),
        Case("no-run", run, dict(n_det=1, free={"t1_metadata": RS, "mid": RS, "t3_metadata": RS}, clobber=(False, True),
                                 skip=((), ("old",), ("out",), ("out", "old")), out_exists=(False,)),
             "output run does not exist yet", ("built", "skipped"), time_cap=big),
        Case("init", run, dict(n_det=1, free={"t1_metadata": ALL, "mid": ("S", "R", "RS")}, clobber=(True,),
                               skip=(("old",), ("out", "old")), init_free=True, out_exists=(True, False)),
             "init-outputs and init-inputs anywhere", ("built", "init-missing", "init-skipped"), time_cap=big),
        Case("retained", run, dict(n_det=2, free={**md, "mid": RS}, skip=sk,
                                   retained=(None, ["mid"], ["fin"], ["a*"], ["m*", "fin"], ["i*"], ["?i?"], ["nothing"])),
             "retained types force reruns upstream", ("built", "skipped"), time_cap=big),
        Case("prune", run, dict(n_det=2, free={"raw": 1, "t2_metadata": RS, "fin": RS, "t3_metadata": RS}, skip=sk,
                                prune=(("t1", "t2"), ("t1", "t3"), ("t2", "t3"), ("t1", "nope"), ("t3", "t1"))),
             "pruning of quanta that lead nowhere", ("built", "pruned"), time_cap=big),
        Case("adjust-out", run, dict(n_det=2, free={"raw": 1}, drops=("out",), need2=(False, True)), "tasks drop outputs",
             ("built", "no-work"), time_cap=big),
        Case("adjust-aux", run, dict(n_det=2, free={"raw": 1, "pre": 1}, drops=("aux",)), "tasks drop inputs, not prerequisites",
             ("built",), time_cap=big),
        Case("independent", run, dict(n_det=1, free={"t4_metadata": ALL, "lout": ALL, "t1_metadata": RS, "raw": 1},
                                      skip=((), ("old",), ("out", "old")), clobber=(False, True)),
             "a task that shares nothing with the others", ("built", "skipped", "in-the-way", "no-work"), time_cap=big),
        Case("adjust-in", run, dict(n_det=2, free={"raw": 1}, drops=("in", "fin")), "tasks drop inputs", ("built", "no-inputs"),
             time_cap=big),
        Case("where-2", run, dict(n_det=2, free={"t1_metadata": ALL, "mid": ALL}, clobber=(False, True),
                                  skip=((), ("old",), ("out", "old"))), "two detectors, either run",
             ("built", "in-the-way"), time_cap=big, validate_every=500),
        Case("adjust-both", run, dict(n_det=2, free={"raw": 1, "t1_metadata": RS, "mid": RS}, skip=sk, drops=("in", "out")),
             "inputs and outputs dropped while skipping", ("built",), time_cap=big, validate_every=500),
    ]
    if t:
        out += [
            Case("skip-t1-3", run, dict(n_det=3, free={"t1_metadata": RS, "mid": RS, "raw": 1, "t2_metadata": RS}, skip=sk),
                 "three detectors", ("built", "skipped"), time_cap=big, validate_every=500),
        ]
    return out
