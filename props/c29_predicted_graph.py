"""C29: predicted quantum graphs: files, partial reads, changing the output run."""

from __future__ import annotations

import os
import tempfile
import warnings

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import DataCoordinate
from lsst.daf.butler.datastore.record_data import DatastoreRecordData
from lsst.daf.butler.datastores.fileDatastore import StoredFileInfo
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections, QuantumGraph
from lsst.pipe.base import automatic_connection_constants as acc
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.quantum_graph import PredictedQuantumDatasetsModel
from lsst.pipe.base.quantum_graph import PredictedQuantumGraph, PredictedQuantumGraphComponents
from lsst.pipe.base.quantum_graph._common import IncompleteQuantumGraphError

from lsst.utils.packages import Packages

from symx.core import outcome
from symx.runner import Case

from . import _qg_env as e

ASSUMPTIONS = [
    "one pipeline of two tasks with init datasets; quanta, their inputs and their order are symbolic",
    "zipfile's relative seek works as in CPython >= 3.12.4 (the one of 3.12.3 mixes up open members)",
    "zip and zstd are run, not encoded; dimension records are fixed",
]

# listing the installed packages takes most of the time of a conversion
_installed = Packages({"python": "3"})
Packages.fromSystem = classmethod(lambda cls: _installed)


def build(eng, n, external=False):
    """Any subset of the quanta a0..a(n-1) and b reading any subset of what they (or others) make."""
    present = [d for d in range(n) if eng.bool(f"a{d}")]
    quanta = [e.quantum_a(d) for d in present]
    reads = []
    if eng.bool("b"):
        reads = [d for d in range(n) if eng.bool(f"r{d}")]
        eng.assume(bool(reads))
        if not external:
            eng.assume(all(d in present for d in reads))
        q = e.quantum_b(reads)
        for d in reads:
            if d not in present and not eng.bool(f"same{d}"):
                q.inputs["mid"][reads.index(d)].run = "in/run"
                q.inputs["md"][reads.index(d)].run = "in/run"
        quanta.append(q)
    if quanta and eng.bool("flip"):
        quanta.reverse()
    return quanta, {(e.uid(f"a{d}"), e.uid("b")) for d in reads if d in present}


def dump(q):
    return q.model_dump()


def path():
    fd, name = tempfile.mkstemp(suffix=".qg")
    os.close(fd)
    return name


def verify_thin(eng, thin, quanta, edges):
    got = sorted((label, q.quantum_id, tuple(q.data_coordinate)) for label, qs in thin.quanta.items() for q in qs)
    want = sorted((q.task_label, q.quantum_id, tuple(q.data_coordinate)) for q in quanta)
    eng.check(got == want, "the thin graph does not list every quantum once")
    eng.check(len(thin.edges) == len(set(map(tuple, thin.edges))) and {tuple(x) for x in thin.edges} == edges,
              "the thin graph has wrong dependencies", str(thin.edges))


def verify_header(eng, h, quanta, init):
    eng.check(h.n_quanta == len(quanta), "wrong number of quanta in the header")
    want = {label: sum(q.task_label == label for q in quanta) for label in ("a", "b")}
    eng.check(h.n_task_quanta == want, "wrong number of quanta per task in the header", str(h.n_task_quanta))
    ids = {d.dataset_id for q in [*quanta, *init] for d in e.all_inputs(q) + e.all_outputs(q)}
    eng.check(h.n_datasets == len(ids), "wrong number of datasets in the header", f"{h.n_datasets} {len(ids)}")


OPS = ("thin", "init", "dims", "all", "one", "two", "none", "initid", "execution")


def read(eng, n, n_ops, ops=OPS, pages=(16, 4096)):
    quanta, edges = build(eng, n, external=n == 2)
    c = e.components(quanta)
    verify_thin(eng, c.thin_graph, quanta, edges)
    verify_header(eng, c.header, quanta, e.init_quanta())
    want = {q.quantum_id: dump(q) for q in quanta}
    ids = list(want)
    name = path()
    try:
        c.write(name)
        with PredictedQuantumGraph.open(name, page_size=eng.choice("page", pages)) as r:
            loaded, thin, init, dims = set(), False, False, False
            for k in range(n_ops):
                op = eng.choice(f"op{k}", ops)
                if op == "thin":
                    r.read_thin_graph()
                    thin = True
                elif op == "init":
                    r.read_init_quanta()
                    init = True
                elif op == "dims":
                    r.read_dimension_data()
                    dims = True
                elif op == "initid":
                    kind, err = outcome(r.read_quantum_datasets, [e.uid("init-a"), *ids[:1]])
                    eng.check(kind == "ok", "the ID of an init quantum is not ignored", repr(err))
                    loaded.update(ids[:1])
                    eng.reach("init-id")
                elif op == "execution":
                    some = ids[-1:]
                    r.read_execution_quanta(some)
                    init = dims = True
                    loaded.update(some)
                elif op == "none":
                    r.read_quantum_datasets([])
                elif op == "all":
                    r.read_quantum_datasets()
                    loaded.update(ids)
                else:
                    some = [ids[eng.int(f"i{k}_{j}", 0, len(ids) - 1)] for j in range(1 if op == "one" else 2)] if ids else []
                    r.read_quantum_datasets(some)
                    loaded.update(some)
            got = r.components
            eng.check({i: dump(q) for i, q in got.quantum_datasets.items()} == {i: want[i] for i in loaded},
                      "a partial read does not give exactly what was asked for",
                      f"{len(got.quantum_datasets)} {len(loaded)}")
            if thin:
                verify_thin(eng, got.thin_graph, quanta, edges)
            if init:
                eng.check([dump(q) for q in got.init_quanta.root] == [dump(q) for q in e.init_quanta()],
                          "init quanta are not read back")
            verify_header(eng, got.header, quanta, e.init_quanta())
            g = r.finish()
        verify_graph(eng, g, quanta, edges, loaded, thin, init, dims)
        complete = len(loaded) == len(ids)
        if not complete and thin and dims:
            # writing what was only read in part must not pass for the full graph
            name2 = path()
            try:
                kind, err = outcome(got.write, name2)
                eng.check(kind == "exc", "a partially read graph can be written as if it were complete")
                eng.reach("refused")
            finally:
                os.unlink(name2)
        eng.reach("complete" if complete else "partial")
    finally:
        os.unlink(name)


def verify_graph(eng, g, quanta, edges, loaded, thin, init, dims):
    by_id = {q.quantum_id: q for q in quanta}
    known = set(by_id) if thin else set(loaded)
    eng.check(set(g) == known and len(list(g)) == len(known) == len(g), "the graph has other quanta than were read")
    xg = g.quantum_only_xgraph
    want_edges = edges if thin else {(a, b) for a, b in edges if a in loaded and b in loaded}
    eng.check(set(xg.edges) == want_edges, "the graph has wrong dependencies", f"{len(xg.edges)} {len(want_edges)}")
    for i in known:
        q = by_id[i]
        info = xg.nodes[i]
        eng.check(info["task_label"] == q.task_label and tuple(info["data_id"].full_values) == tuple(q.data_coordinate),
                  "a quantum has a wrong label or data ID")
        eng.check(g.quanta_by_task[q.task_label][info["data_id"]] == i, "a quantum is not found by task and data ID")
    bx = g.bipartite_xgraph
    want = {(d.dataset_id, i) for i in loaded for d in e.all_inputs(by_id[i])}
    want |= {(i, d.dataset_id) for i in loaded for d in e.all_outputs(by_id[i])}
    eng.check(set(bx.edges) == want, "datasets are not connected to the quanta that read and write them")
    for i in loaded:
        for d in e.all_inputs(by_id[i]) + e.all_outputs(by_id[i]):
            n = bx.nodes[d.dataset_id]
            eng.check(n["dataset_type_name"] == d.dataset_type_name and n["run"] == d.run
                      and tuple(n["data_id"].full_values) == tuple(d.data_coordinate), "a dataset has wrong properties")
            eng.check(g.datasets_by_type[d.dataset_type_name][n["data_id"]] == d.dataset_id,
                      "a dataset is not found by type and data ID")
    if init:
        for label in ("a", "b"):
            outs = g.get_init_outputs(label)
            eng.check({n: r.id for n, r in outs.items()} == {
                n: v[0].dataset_id for q in e.init_quanta() if q.task_label == label for n, v in q.outputs.items()},
                "wrong init outputs")
            ins = g.get_init_inputs(label)
            eng.check({n: r.id for n, r in ins.items()} == {
                n: v[0].dataset_id for q in e.init_quanta() if q.task_label == label for n, v in q.inputs.items()},
                "wrong init inputs")
    if not init or not dims:
        kind, err = outcome(g.build_execution_quanta, list(loaded))
        eng.check(kind == "ok" or isinstance(err, IncompleteQuantumGraphError),
                  "building quanta from an incomplete graph fails obscurely", repr(err))
        if kind == "exc":
            return
    kind, got = outcome(g.build_execution_quanta, list(loaded))
    eng.check(kind == "ok" and set(got) == set(loaded), "loaded quanta cannot be built", repr(got))
    for i, bq in got.items():
        q = by_id[i]
        task = e.PIPELINE.tasks[q.task_label]
        eng.check(bq.dataId.hasRecords() and tuple(bq.dataId.full_values) == tuple(q.data_coordinate), "a built quantum has a wrong data ID")
        for refs, models in ((bq.inputs, q.inputs), (bq.outputs, q.outputs)):
            want = {task.get_edge(n).dataset_type_name: [(d.dataset_id, d.run, tuple(d.data_coordinate)) for d in v]
                    for n, v in models.items()}
            have = {t.name: [(r.id, r.run, tuple(r.dataId.full_values)) for r in v] for t, v in refs.items()}
            eng.check(have == want, "a built quantum has other inputs or outputs than predicted")
        eng.check({t.name: r.id for t, r in bq.initInputs.items()} == (
            {"a_schema": e.ds("a_schema").dataset_id} if q.task_label == "b" else {}), "wrong init inputs of a quantum")
    rest = [i for i in known if i not in loaded]
    if rest:
        kind, err = outcome(g.build_execution_quanta, rest)
        eng.check(kind == "exc" and isinstance(err, IncompleteQuantumGraphError), "a quantum that was not read can be built")
    eng.reach("built")


def rerun(eng, n):
    """update_output_run."""
    quanta, edges = build(eng, n, external=True)
    c = e.components(quanta)
    old = [dump(q) for q in [*c.init_quanta.root, *quanta]]
    produced = {d["dataset_id"] for q in old for v in q["outputs"].values() for d in v}
    old_prov = c.header.provenance_dataset_id
    c.update_output_run("new/run")
    new = [dump(q) for q in [*c.init_quanta.root, *c.quantum_datasets.values()]]
    eng.check(len(new) == len(old), "quanta were lost")
    ids = {}
    for o, m in zip(old, new):
        eng.check(o["task_label"] == m["task_label"] and o["data_coordinate"] == m["data_coordinate"], "a quantum changed")
        eng.check(o["quantum_id"] != m["quantum_id"], "a quantum kept its ID")
        ids[o["quantum_id"]] = m["quantum_id"]
        for a, b in zip(o["outputs"].values(), m["outputs"].values(), strict=True):
            for x, y in zip(a, b, strict=True):
                eng.check(y["run"] == "new/run" and y["dataset_id"] != x["dataset_id"], "an output was not moved to the new run")
                ids[x["dataset_id"]] = y["dataset_id"]
                eng.check((x["dataset_type_name"], x["data_coordinate"]) == (y["dataset_type_name"], y["data_coordinate"]),
                          "an output changed its type or data ID")
    eng.check(len(set(ids.values())) == len(ids), "new IDs are not unique")
    for o, m in zip(old, new):
        for a, b in zip(o["inputs"].values(), m["inputs"].values(), strict=True):
            for x, y in zip(a, b, strict=True):
                eng.check(y["dataset_id"] == ids.get(x["dataset_id"], x["dataset_id"]),
                          "an input does not follow the dataset it refers to")
                if x["dataset_id"] in produced:
                    eng.check(y["run"] == "new/run", "an input made in this graph has the old run")
                    eng.reach("internal")
                elif x["run"] != e.RUN:
                    eng.check(y["run"] == x["run"], "an input from another run was changed")
                    eng.reach("external")
    eng.check(set(c.quantum_datasets) == {q["quantum_id"] for q in new[len(c.init_quanta.root):]}
              and all(k == q.quantum_id for k, q in c.quantum_datasets.items()), "quanta are filed under wrong IDs")
    eng.check(c.header.output_run == "new/run" and c.header.inputs == ["in/run"] and c.header.output == "out",
              "the header does not name the new run")
    verify_thin(eng, c.thin_graph, list(c.quantum_datasets.values()), {(ids[a], ids[b]) for a, b in edges})
    verify_header(eng, c.header, list(c.quantum_datasets.values()), c.init_quanta.root)
    eng.reach("moved")


def legacy(eng, n):
    """New format -> old in-memory graph -> new format."""
    quanta, edges = build(eng, n)
    eng.assume(bool(quanta))
    c = e.components(quanta)
    c.header.metadata = {"custom": 7} if eng.bool("custom") else {}
    g = c.assemble()
    old = g.to_old_quantum_graph()
    if eng.bool("text"):  # a single collection may be given as a string
        old = QuantumGraph({d: {n.quantum for n in old.getNodesForTask(d)} for d in old.taskGraph},
                           metadata={**old.metadata, "input": "in/run"}, universe=e.UNIVERSE,
                           initInputs={d: old.initInputRefs(d) for d in old.taskGraph},
                           initOutputs={d: old.initOutputRefs(d) for d in old.taskGraph},
                           globalInitOutputs=old.globalInitOutputRefs(), registryDatasetTypes=old.registryDatasetTypes())
        back = PredictedQuantumGraphComponents.from_old_quantum_graph(old)
        eng.check(back.header.inputs == ["in/run"], "a single input collection is torn apart", str(back.header.inputs))
        eng.reach("text")
        return
    eng.check({node.nodeId for node in old} == {q.quantum_id for q in quanta}, "quanta are lost in conversion")
    eng.check({(a.nodeId, b.nodeId) for a, b in old.graph.edges} == edges, "dependencies are lost in conversion")
    back = PredictedQuantumGraphComponents.from_old_quantum_graph(old)
    eng.check(set(back.quantum_datasets) == set(c.quantum_datasets), "quanta are lost on the way back")
    for i, q in c.quantum_datasets.items():
        b = back.quantum_datasets[i]
        for x, y in ((q.inputs, b.inputs), (q.outputs, b.outputs)):
            eng.check({k: sorted((d.dataset_id, d.run) for d in v) for k, v in x.items()} ==
                      {k: sorted((d.dataset_id, d.run) for d in v) for k, v in y.items()},
                      "inputs or outputs change on the way back")
    verify_thin(eng, back.thin_graph, quanta, edges)
    eng.check(back.header.output_run == e.RUN and back.header.inputs == ["in/run"] and back.header.output == "out",
              "the header is lost in conversion")
    eng.check((back.header.user, back.header.command, back.header.timestamp, back.header.metadata) ==
              ("u", "c", c.header.timestamp, c.header.metadata), "user, command, time or metadata are lost in conversion",
              str(back.header))
    eng.check(back.header.n_quanta == len(quanta), "wrong number of quanta in the header")
    eng.reach("converted")


DET = ("instrument", "detector")


class ConnP(PipelineTaskConnections, dimensions=DET):
    raw = cT.Input(name="raw", storageClass=e.SC, dimensions=DET)
    tab = cT.Output(name="tab", storageClass="ArrowAstropy", dimensions=DET)


class CfgP(PipelineTaskConfig, pipelineConnections=ConnP):
    pass


class TaskP(PipelineTask):
    ConfigClass = CfgP
    _DefaultName = "p"


class ConnR(PipelineTaskConnections, dimensions=("instrument",)):
    ext = cT.InitInput(name="ext_schema", storageClass=e.SC)
    cols = cT.Input(name="tab.columns", storageClass="ArrowColumnList", dimensions=DET, multiple=True)
    one = cT.Input(name="tab", storageClass="DataFrame", dimensions=DET, multiple=True, minimum=0)
    two = cT.Input(name="tab", storageClass="DataFrame", dimensions=DET, multiple=True, minimum=0)
    out = cT.Output(name="out", storageClass=e.SC, dimensions=("instrument",))


class CfgR(PipelineTaskConfig, pipelineConnections=ConnR):
    pass


class TaskR(PipelineTask):
    ConfigClass = CfgR
    _DefaultName = "r"


def _pipeline():
    g = PipelineGraph(universe=e.UNIVERSE)
    g.add_task("p", TaskP, CfgP())
    g.add_task("r", TaskR, CfgR())
    g.resolve(dimensions=e.UNIVERSE, dataset_types={})
    return g


PIPE = _pipeline()
READS = ("cols", "one", "two")
SHOWN = {"cols": ("tab.columns", "ArrowColumnList"), "one": ("tab", "DataFrame"), "two": ("tab", "DataFrame")}


def records(ids):
    sc = PIPE.dataset_types["raw"].dataset_type.storageClass
    return {"store": DatastoreRecordData(records={i: {"file_datastore_records": [StoredFileInfo(
        formatter="lsst.daf.butler.formatters.json.JsonFormatter", path=f"{i}.json", storageClass=sc, component=None,
        checksum=None, file_size=1)]} for i in ids}).to_simple()} if ids else {}


def connections(eng, n, reads, form):
    """Several connections to one dataset type, in several storage classes; datastore records; init datasets."""
    made = [d for d in range(n) if eng.bool(f"p{d}")]
    quanta, rec = [], {}
    for d in made:
        c = ("I", d)
        raw = e.ds("raw", c, "in/run")
        rec[e.uid(f"p{d}")] = {raw.dataset_id} if eng.bool(f"rec{d}") else set()
        quanta.append(PredictedQuantumDatasetsModel(
            quantum_id=e.uid(f"p{d}"), task_label="p", data_coordinate=list(c), inputs={"raw": [raw]},
            outputs={"tab": [e.ds("tab", c)], acc.METADATA_OUTPUT_CONNECTION_NAME: [e.ds("p_metadata", c)],
                     acc.LOG_OUTPUT_CONNECTION_NAME: [e.ds("p_log", c)]},
            datastore_records=records(rec[e.uid(f"p{d}")])))
    uses = {name: [d for d in range(n) if eng.bool(f"{name}{d}")] if name in reads else [] for name in READS}
    def tab(d):
        return e.ds("tab", ("I", d), e.RUN if d in made else "in/run")
    outside = {tab(d).dataset_id for ds in uses.values() for d in ds if d not in made}
    rec[e.uid("r")] = outside
    quanta.append(PredictedQuantumDatasetsModel(
        quantum_id=e.uid("r"), task_label="r", data_coordinate=["I"], inputs={k: [tab(d) for d in ds] for k, ds in uses.items()},
        outputs={"out": [e.ds("out", ("I",))], acc.METADATA_OUTPUT_CONNECTION_NAME: [e.ds("r_metadata", ("I",))],
                 acc.LOG_OUTPUT_CONNECTION_NAME: [e.ds("r_log", ("I",))]},
        datastore_records=records(outside)))
    ext = e.ds("ext_schema", run="in/run")
    init = [PredictedQuantumDatasetsModel(quantum_id=e.uid("init"), task_label="", outputs={
        acc.PACKAGES_INIT_OUTPUT_NAME: [e.ds("packages")]})]
    init += [PredictedQuantumDatasetsModel(
        quantum_id=e.uid(f"init-{label}"), task_label=label, inputs={"ext": [ext]} if label == "r" else {},
        outputs={acc.CONFIG_INIT_OUTPUT_CONNECTION_NAME: [e.ds(f"{label}_config")]},
        datastore_records=records({ext.dataset_id} if label == "r" else ())) for label in "pr"]
    c = e.components(quanta, init, pipeline=PIPE)
    edges = {(e.uid(f"p{d}"), e.uid("r")) for ds in uses.values() for d in ds if d in made}
    want = {}
    for name, ds in uses.items():
        for d in ds:
            found = want.setdefault(SHOWN[name], [])
            if (item := (tab(d).dataset_id, tab(d).run, ("I", d))) not in found:
                found.append(item)
    got = eng.choice("via", form)
    if got == "memory":
        g = c.assemble()
    elif got in (".qg", ".qgraph"):
        fd, name = tempfile.mkstemp(suffix=got)
        os.close(fd)
        try:
            c.write(name)
            g = PredictedQuantumGraph.read_execution_quanta(name)
        finally:
            os.unlink(name)
    else:
        back = PredictedQuantumGraphComponents.from_old_quantum_graph(c.assemble().to_old_quantum_graph())
        for q in back.init_quanta.root:
            known = {i for v in q.deserialize_datastore_records().values() for i in v.records}
            eng.check(known == ({ext.dataset_id} if q.task_label == "r" else set()), "datastore records of init inputs are lost")
        g = back.assemble()
    verify_connections(eng, g, quanta, edges, want, uses, made, rec, ext, got)
    eng.reach(got)
    if any(len(v) > 1 for v in want.values()):
        eng.reach("several")


def verify_connections(eng, g, quanta, edges, want, uses, made, rec, ext, via):
    old = via in (".qgraph", "old")
    eng.check(set(g) == {q.quantum_id for q in quanta} and set(g.quantum_only_xgraph.edges) == edges,
              "quanta or dependencies are lost")
    bx = g.bipartite_xgraph
    r = e.uid("r")
    eng.check(set(bx.predecessors(r)) == {i for v in want.values() for i, _, _ in v}, "inputs are lost")
    for i in bx.predecessors(r):
        names = {n for n, ds in uses.items() for d in ds if e.ds("tab", ("I", d)).dataset_id == i}
        if old:  # the old format knows dataset types, not connections
            names = {n for n in READS if SHOWN[n] in {SHOWN[k] for k in names}}
        edge = bx.edges[i, r]
        eng.check(edge["is_read"] and sorted(x.connection_name for x in edge["pipeline_edges"]) == sorted(names)
                  and all(x.task_label == "r" for x in edge["pipeline_edges"]), "an input is read by wrong connections",
                  f"{[x.connection_name for x in edge['pipeline_edges']]} {names}")
        eng.check(bx.nodes[i]["pipeline_node"].name == "tab", "a dataset has a wrong pipeline node")
    for q in quanta:
        for name, ds in q.outputs.items():
            for d in ds:
                edge = bx.edges[q.quantum_id, d.dataset_id]
                eng.check(not edge["is_read"] and [x.connection_name for x in edge["pipeline_edges"]] == [name],
                          "an output is written by a wrong connection")
    by_task = g.build_execution_quanta(task_label="p") if made or not old else {}  # old graphs only have tasks with quanta
    eng.check(set(by_task) == {e.uid(f"p{d}") for d in made}, "wrong quanta of a task")
    built = g.build_execution_quanta()
    eng.check(set(built) == {q.quantum_id for q in quanta} and all(built[i] is q for i, q in by_task.items()), "wrong quanta")
    have = {(t.name, t.storageClass_name): sorted((x.id, x.run, tuple(x.dataId.full_values)) for x in v)
            for t, v in built[r].inputs.items() if v}
    eng.check(have == {k: sorted(v) for k, v in want.items()}, "a built quantum lost inputs of a connection",
              f"{ {k: len(v) for k, v in have.items()} } { {k: len(v) for k, v in want.items()} }")
    eng.check({t.name: (x.id, x.run) for t, x in built[r].initInputs.items()} == {"ext_schema": (ext.dataset_id, "in/run")},
              "a built quantum lost its init inputs")
    for i, q in built.items():
        known = {k for v in q.datastore_records.values() for k in v.records}
        eng.check(known == rec[i] | ({ext.dataset_id} if i == r else set()), "datastore records are lost or added",
                  f"{len(known)} {len(rec[i])}")
    eng.check([(x.id, x.run, x.datasetType.name) for x in g.get_init_outputs("").values()] ==
              [(e.ds("packages").dataset_id, e.RUN, "packages")], "the packages dataset is lost")
    eng.check({n: x.id for n, x in g.get_init_inputs("r").items()} == {"ext": ext.dataset_id},
              "init inputs are lost")


def dictionary(eng):
    """Files with and without a compression dictionary trained on the first quanta."""
    quanta = [e.quantum_a(d) for d in range(9)]
    if eng.bool("flip"):
        quanta.reverse()
    if eng.bool("init"):
        quanta[0].datastore_records = records({quanta[0].inputs["raw"][0].dataset_id})
    c = e.components(quanta)
    want = {q.quantum_id: dump(q) for q in quanta}
    name = path()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.write(name, zstd_dict_n_inputs=eng.choice("trained", (4, 8, 9, 512)), zstd_dict_size=eng.choice("size", (0, 1024)),
                    zstd_level=eng.choice("level", (1, 10)))
        with PredictedQuantumGraph.open(name) as r:
            which = eng.int("which", 0, 9)
            ids = [quanta[which].quantum_id] if which < 9 else None
            if ids is None and eng.bool("everything"):
                r.read_all()
            else:
                r.read_quantum_datasets(ids)
            got = {i: dump(q) for i, q in r.components.quantum_datasets.items()}
        eng.check(got == (want if ids is None else {ids[0]: want[ids[0]]}), "a compressed file does not give back the quanta")
        eng.reach("all" if ids is None else "one")
    finally:
        os.unlink(name)


def cases(tier):
    q = tier == "quick"
    out = [
        Case("read-1", read, dict(n=2, n_ops=1), "any subset of 3 quanta, one read operation", ("complete", "partial", "init-id")),
        Case("read-2", read, dict(n=1, n_ops=3, ops=("thin", "init", "dims", "all", "one", "execution")), "up to 2 quanta, any 3 read operations",
             ("complete", "partial", "refused", "built"), validate_every=100, time_cap=600),
        Case("read-3", read, dict(n=2, n_ops=2, pages=(16,)), "any subset of 3 quanta, any 2 read operations",
             ("complete", "partial", "refused", "built"), validate_every=200, time_cap=600),
        Case("update-run", rerun, dict(n=2), "any subset of 3 quanta, inputs from this run or others",
             ("moved", "internal", "external")),
        Case("update-run-3", rerun, dict(n=3), "any subset of 4 quanta", ("moved", "internal", "external"), time_cap=600),
        Case("connections", connections, dict(n=2, reads=READS, form=("memory", "old")), "up to 3 quanta, 3 connections to one dataset type",
             ("memory", "old", "several"), validate_every=100, time_cap=600),
        Case("connections-file", connections, dict(n=1, reads=READS, form=(".qg", ".qgraph")), "2 quanta, 3 connections to one dataset type",
             (".qg", ".qgraph"), validate_every=20),
        Case("legacy", legacy, dict(n=2), "any subset of 3 quanta", ("converted", "text"), validate_every=20),
        Case("dictionary", dictionary, {}, "9 quanta, files with and without a dictionary", ("one", "all"), validate_every=50),
    ]
    if not q:
        out += [
            Case("read-4", read, dict(n=2, n_ops=3, ops=("thin", "init", "dims", "all", "one", "execution")),
                 "any subset of 3 quanta, any 3 read operations", ("complete", "partial"), validate_every=1000, time_cap=3000),
            Case("legacy-3", legacy, dict(n=3), "any subset of 4 quanta", ("converted",), time_cap=1500),
        ]
    return out
