"""C31: the in-memory quantum graph: structure, subsets, files, output run, dataset queries."""

from __future__ import annotations

import io
import os
import pickle
import tempfile

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import DataCoordinate, DatasetRef, Quantum
from lsst.daf.butler.datastore.record_data import DatastoreRecordData
from lsst.daf.butler.datastores.fileDatastore import StoredFileInfo
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections, QuantumGraph
from lsst.pipe.base.pipeline import TaskDef
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.utils.packages import Packages

from symx.core import outcome
from symx.runner import Case

from . import _qg_env as e

ASSUMPTIONS = [
    "three tasks (a and b per detector, c per instrument) with init datasets, converted storage classes and a component",
    "lzma, JSON, pickle and networkx are run, not encoded",
    "task instances and configurations are fixed; the list of installed packages is stubbed",
]

# listing the installed packages takes most of the time to make a graph
_installed = Packages({"python": "3"})
Packages.fromSystem = classmethod(lambda cls: _installed)

IN, OUT = "in/run", "out/run"
DET = ("instrument", "detector")


class ConnA(PipelineTaskConnections, dimensions=DET):
    schema = cT.InitOutput(name="a_schema", storageClass=e.SC)
    raw = cT.Input(name="raw", storageClass=e.SC, dimensions=DET)
    cal = cT.PrerequisiteInput(name="cal", storageClass=e.SC, dimensions=("instrument",))
    mid = cT.Output(name="mid", storageClass="ArrowAstropy", dimensions=DET)


class CfgA(PipelineTaskConfig, pipelineConnections=ConnA):
    pass


class TaskA(PipelineTask):
    ConfigClass = CfgA
    _DefaultName = "a"


class ConnB(PipelineTaskConnections, dimensions=DET):
    in_schema = cT.InitInput(name="a_schema", storageClass=e.SC)
    mid = cT.Input(name="mid.columns", storageClass="ArrowColumnList", dimensions=DET)
    out = cT.Output(name="bout", storageClass=e.SC, dimensions=DET)


class CfgB(PipelineTaskConfig, pipelineConnections=ConnB):
    pass


class TaskB(PipelineTask):
    ConfigClass = CfgB
    _DefaultName = "b"


class ConnC(PipelineTaskConnections, dimensions=("instrument",)):
    in_schema = cT.InitInput(name="ext_schema", storageClass=e.SC)
    mid = cT.Input(name="mid", storageClass="DataFrame", dimensions=DET, multiple=True)
    bout = cT.Input(name="bout", storageClass=e.SC, dimensions=DET, multiple=True)
    out = cT.Output(name="cout", storageClass=e.SC, dimensions=("instrument",))


class CfgC(PipelineTaskConfig, pipelineConnections=ConnC):
    pass


class TaskC(PipelineTask):
    ConfigClass = CfgC
    _DefaultName = "c"


TASKS = {"a": TaskA, "b": TaskB, "c": TaskC}


def _pipeline():
    g = PipelineGraph(universe=e.UNIVERSE)
    for label, cls in TASKS.items():
        g.add_task(label, cls, cls.ConfigClass())
    g.resolve(dimensions=e.UNIVERSE, dataset_types={})
    return g


PIPE = _pipeline()
DEFS = {label: TaskDef(config=cls.ConfigClass(), taskClass=cls, label=label) for label, cls in TASKS.items()}
TYPES = {n.name: n.dataset_type for n in PIPE.dataset_types.values()}
ATTACH = e.dimension_data()


def data_id(d=None):
    c = DataCoordinate.standardize(instrument="I", **({} if d is None else {"detector": d}), universe=e.UNIVERSE)
    return ATTACH.attach(c.dimensions, [c])[0]


IDS = {d: data_id(d) for d in (None, 0, 1, 2)}
EMPTY = DataCoordinate.makeEmpty(e.UNIVERSE)


def ref(name, d=None, run=OUT, storage=None, empty=False):
    parent, _, component = name.partition(".")
    t = TYPES[parent]
    r = DatasetRef(t, EMPTY if empty else IDS[d], run=run, id=e.uid(f"{parent}{d}{run}"))
    if component:
        return r.makeComponentRef(component)
    return r if storage is None else r.overrideStorageClass(storage)


def record(r):
    return DatastoreRecordData(records={r.id: {"file_datastore_records": [StoredFileInfo(
        formatter="lsst.daf.butler.formatters.json.JsonFormatter", path=f"{r.id}.json",
        storageClass=r.datasetType.storageClass, component=None, checksum=None, file_size=1)]}})


def quantum(label, d, inputs, outputs, init=()):
    """With datastore records for the first input that comes from elsewhere."""
    ext = [r for refs in inputs for r in refs if r.run == IN and not r.isComponent()][:1]
    return Quantum(
        taskClass=TASKS[label], dataId=IDS[d], inputs={refs[0].datasetType: refs for refs in inputs if refs},
        outputs={r.datasetType: [r] for r in outputs}, initInputs={r.datasetType: r for r in init},
        datastore_records={"store": record(r) for r in ext})


def build(eng, n, light=False, no_b=False):
    """Any set of quanta a_d, b_d (d < n) and c, the latter reading anything the others could make."""
    quanta = {label: [] for label in TASKS}
    edges = set()
    present = set()
    for d in range(n):
        if eng.bool(f"a{d}"):
            quanta["a"].append(quantum("a", d, [[ref("raw", d, IN)], [ref("cal", None, IN)]],
                                       [ref("mid", d), ref("a_metadata", d)]))
            present.add(("a", d))
        if not no_b and eng.bool(f"b{d}"):
            external = ("a", d) not in present and not eng.bool(f"same{d}")
            quanta["b"].append(quantum("b", d, [[ref("mid.columns", d, IN if external else OUT)]],
                                       [ref("bout", d), ref("b_metadata", d)], [ref("a_schema", empty=True)]))
            present.add(("b", d))
            if ("a", d) in present:
                edges.add((("a", d), ("b", d)))
    if eng.bool("c"):
        mids = [d for d in range(n) if eng.bool(f"m{d}")]
        bouts = mids if light else [d for d in range(n) if eng.bool(f"o{d}")]
        run = {("mid", d): OUT if ("a", d) in present else IN for d in mids}
        run |= {("bout", d): OUT if ("b", d) in present else IN for d in bouts}
        quanta["c"].append(quantum(
            "c", None, [[ref("mid", d, run["mid", d], "DataFrame") for d in mids], [ref("bout", d, run["bout", d]) for d in bouts]],
            [ref("cout"), ref("c_metadata")], [ref("ext_schema", run=IN, empty=True)]))
        present.add(("c", None))
        edges |= {(("a", d), ("c", None)) for d in mids if ("a", d) in present}
        edges |= {(("b", d), ("c", None)) for d in bouts if ("b", d) in present}
    labels = [label for label in TASKS if quanta[label]]
    if eng.bool("flip"):
        labels.reverse()
    g = QuantumGraph(
        {DEFS[label]: set(quanta[label]) for label in labels}, universe=e.UNIVERSE,
        metadata={"input": ["in"], "output": "out", "output_run": OUT, "packages": {}, "user": "u", "time": "t",
                  "full_command": "cmd"},
        initInputs={DEFS[label]: [ref("a_schema", empty=True)] if label == "b" else [ref("ext_schema", run=IN, empty=True)]
                    for label in labels if label != "a"},
        initOutputs={DEFS[label]: [ref(f"{label}_config", empty=True)] + ([ref("a_schema", empty=True)] if label == "a" else [])
                     for label in labels},
        globalInitOutputs=[ref_packages()],
        registryDatasetTypes=registry(eng))
    return g, quanta, edges


PACKAGES = PIPE.packages_dataset_type


def ref_packages(run=OUT):
    return DatasetRef(PACKAGES, EMPTY, run=run, id=e.uid(f"packages{run}"))


def registry(eng):
    """The repository may hold mid with another storage class than the task writes."""
    alt = eng.bool("repo_storage")
    out = dict(TYPES)
    if alt:
        out["mid"] = out["mid"].overrideStorageClass("DataFrame")
    return [*out.values(), PACKAGES]



def node_key(node):
    return node.taskDef.label, (node.quantum.dataId["detector"] if "detector" in node.quantum.dataId else None)


def q_key(label, q):
    return label, (q.dataId["detector"] if "detector" in q.dataId else None)


def rv(r):
    return (r.datasetType.name, r.datasetType.storageClass_name, r.dataId.required_values, r.run, r.id)


def qv(q):
    """Everything a quantum says."""
    return (
        q.taskName, q.dataId.required_values, q.dataId.hasRecords(),
        {t.name: [rv(r) for r in v] for t, v in q.inputs.items()},
        {t.name: [rv(r) for r in v] for t, v in q.outputs.items()},
        {t.name: rv(r) for t, r in q.initInputs.items()},
        {s: set(v.records) for s, v in q.datastore_records.items()},
    )


def view(g):
    return {n.nodeId: (n.taskDef.label, qv(n.quantum)) for n in g.graph.nodes}


def types_of(labels):
    out = {"a": ({"raw", "cal"}, {"mid"}), "b": ({"mid", "a_schema"}, {"bout"}), "c": ({"mid", "bout", "ext_schema"}, {"cout"})}
    consumers, producers = {}, {}
    for label in labels:
        for t in out[label][0]:
            consumers.setdefault(t, set()).add(label)
        for t in out[label][1]:
            producers[t] = label
    return consumers, producers


def verify(eng, g, want, edges, whole, what):
    """``g`` holds exactly the quanta ``want`` {(label, detector): (node ID or None, quantum view)}."""
    nodes = list(g)
    eng.check(len(nodes) == len(g) == len(want) and sorted(map(node_key, nodes), key=str) == sorted(want, key=str),
              f"{what}: not every quantum is there exactly once", f"{[node_key(n) for n in nodes]}")
    by = {node_key(n): n for n in nodes}
    for k, (nid, q) in want.items():
        eng.check(qv(by[k].quantum) == q, f"{what}: a quantum changed", f"{k}")
        eng.check(nid is None or by[k].nodeId == nid, f"{what}: a quantum has another node ID")
        eng.check(g.getQuantumNodeByNodeId(by[k].nodeId) == by[k] and by[k] in g and g.checkQuantumInGraph(by[k].quantum),
                  f"{what}: a node is not found")
    eng.check(len({n.nodeId for n in nodes}) == len(nodes), f"{what}: node IDs are not unique")
    edges = {(x, y) for x, y in edges if x in want and y in want}
    eng.check({(node_key(x), node_key(y)) for x, y in g.graph.edges} == edges, f"{what}: wrong dependencies",
              f"{[(node_key(x), node_key(y)) for x, y in g.graph.edges]}")
    at = {node_key(n): i for i, n in enumerate(nodes)}
    eng.check(all(at[x] < at[y] for x, y in edges), f"{what}: quanta are not listed in dependency order")
    for k, n in by.items():
        eng.check({node_key(m) for m in g.determineInputsToQuantumNode(n)} == {x for x, y in edges if y == k}
                  and {node_key(m) for m in g.determineOutputsOfQuantumNode(n)} == {y for x, y in edges if x == k},
                  f"{what}: wrong neighbours")
    eng.check({node_key(n) for n in g.inputQuanta} == {k for k in want if not any(y == k for _, y in edges)}
              and {node_key(n) for n in g.outputQuanta} == {k for k in want if not any(x == k for x, _ in edges)},
              f"{what}: wrong first or last quanta")
    eng.check(g.findCycle() == [], f"{what}: a cycle")
    labels = {k[0] for k in want}
    consumers, producers = types_of(labels)
    eng.check(set(g.allDatasetTypes) == set(consumers) | set(producers), f"{what}: wrong dataset types", f"{g.allDatasetTypes}")
    for t in set(consumers) | set(producers):
        eng.check({d.label for d in g.findTasksWithInput(t)} == consumers.get(t, set()), f"{what}: wrong consumers")
        p = g.findTaskWithOutput(t)
        eng.check((p.label if p else None) == producers.get(t), f"{what}: wrong producer")
        users = consumers.get(t, set()) | ({producers[t]} if t in producers else set())
        eng.check({d.label for d in g.tasksWithDSType(t)} == users, f"{what}: wrong tasks for a dataset type")
        eng.check(len(g.findQuantaWithDSType(t)) == sum(k[0] in users for k in want), f"{what}: wrong quanta for a dataset type")
    order = [d.label for d in g.iterTaskGraph()]
    eng.check(sorted(order) == sorted(labels) and order == sorted(order), f"{what}: tasks are not listed in order", f"{order}")
    for label in TASKS:
        mine = {k for k in want if k[0] == label}
        got = g.get_task_quanta(label)
        eng.check({(label, q.dataId.get("detector")) for q in got.values()} == mine
                  and all(by[q_key(label, q)].nodeId == i for i, q in got.items()), f"{what}: wrong quanta of a task")
        d = g.findTaskDefByLabel(label)
        eng.check((d is None) == (not mine), f"{what}: a task is missing or left over")
        if d is not None:
            eng.check(d.config == DEFS[label].config and d.taskClass is TASKS[label], f"{what}: a task changed")
            eng.check(g.getNumberOfQuantaForTask(d) == len(mine) == len(g.getNodesForTask(d)) == len(g.getQuantaForTask(d)),
                      f"{what}: wrong number of quanta of a task")
        eng.check([x.label for x in g.findTaskDefByName(TASKS[label].__name__)] == [label] * bool(mine), f"{what}: wrong task for a name")
    eng.check(g.findTaskDefByName("askA") == [] and g.findTaskDefByLabel("") is None and g.get_task_quanta("x") == {},
              f"{what}: a task is found under a wrong name")
    eng.check(sorted(map(rv, g.globalInitOutputRefs())) == sorted(whole["global"]), f"{what}: global init outputs are lost")
    for label in labels:
        eng.check(sorted(map(rv, g.get_init_input_refs(label))) == sorted(whole["init_in"].get(label, ())), f"{what}: init inputs are lost", label)
        eng.check(sorted(map(rv, g.get_init_output_refs(label))) == sorted(whole["init_out"].get(label, ())), f"{what}: init outputs are lost", label)
    eng.check(g.universe == e.UNIVERSE, f"{what}: another dimension universe")
    eng.check(set(g.pipeline_graph.tasks) == labels, f"{what}: the pipeline graph has other tasks")
    s = g.getSummary()
    eng.check(s.graphID == g.graphID == whole["id"] and s.outputRun == whole["run"] == g.metadata["output_run"]
              and s.outputCollection == "out" and s.inputCollection == ["in"], f"{what}: the description of the graph is lost")
    eng.check(set(s.qgraphTaskSummaries) == labels, f"{what}: wrong tasks in the summary")
    for label, t in s.qgraphTaskSummaries.items():
        mine = [q for k, (_, q) in want.items() if k[0] == label]
        eng.check(t.numQuanta == len(mine), f"{what}: wrong number of quanta in the summary")
        for i, counts in ((3, t.numInputs), (4, t.numOutputs)):
            total = {}
            for q in mine:
                for name, refs in q[i].items():
                    total[name] = total.get(name, 0) + len(refs)
            eng.check(dict(counts) == total, f"{what}: wrong number of datasets in the summary", f"{dict(counts)} {total}")
    types = {t.name: t.storageClass_name for t in g.registryDatasetTypes()}
    used = {name.partition(".")[0] for _, q in want.values() for part in (q[3], q[4], q[5]) for name in part} | {"packages"}
    eng.check(used <= set(types) and all(whole["types"][n] == sc for n, sc in types.items()), f"{what}: registry dataset types are lost")


def whole_of(g):
    return {
        "global": [rv(r) for r in g.globalInitOutputRefs()], "id": g.graphID, "run": OUT,
        "init_in": {label: [rv(r) for r in g.get_init_input_refs(label)] for label in TASKS},
        "init_out": {label: [rv(r) for r in g.get_init_output_refs(label)] for label in TASKS},
        "types": {t.name: t.storageClass_name for t in g.registryDatasetTypes()},
    }


def expected(g, quanta):
    ids = {node_key(n): n.nodeId for n in g.graph.nodes}
    return {q_key(label, q): (ids.get(q_key(label, q)), qv(q)) for label, qs in quanta.items() for q in qs}


def expected_whole(quanta, g, eng=None):
    labels = [label for label in TASKS if quanta[label]]
    w = whole_of(g)
    w["global"] = [rv(ref_packages())]
    w["init_in"] = {label: [rv(ref("a_schema", empty=True) if label == "b" else ref("ext_schema", run=IN, empty=True))]
                    for label in labels if label != "a"}
    w["init_out"] = {label: [rv(ref(f"{label}_config", empty=True))] + ([rv(ref("a_schema", empty=True))] if label == "a" else [])
                     for label in labels}
    return w


def start(eng, n, light=False, no_b=False):
    g, quanta, edges = build(eng, n, light, no_b)
    return g, expected(g, quanta), edges, expected_whole(quanta, g)


def structure(eng, n, no_b=False):
    g, want, edges, whole = start(eng, n, light=no_b, no_b=no_b)
    verify(eng, g, want, edges, whole, "new graph")
    if want:
        eng.reach("graph")
        eng.check(g.isConnected == (len(components(want, edges)) == 1), "wrong answer on being connected")
    if edges:
        eng.reach("edges")


def components(keys, edges):
    groups = [{k} for k in keys]
    for x, y in edges:
        gx, gy = next(s for s in groups if x in s), next(s for s in groups if y in s)
        if gx is not gy:
            groups.remove(gy)
            gx |= gy
    return groups


def subsets(eng, n):
    g, want, edges, whole = start(eng, n, light=n > 1)
    by = {node_key(x): x for x in g.graph.nodes}
    before = view(g)
    keys = list(want)
    eng.assume(bool(keys))
    op = eng.choice("op", ("subset", "one", "connected", "neighbours", "ancestors"))
    if op == "subset":
        pick = [k for k in keys if eng.bool(f"p{k}")]
        some = [by[k] for k in pick]
        form = eng.choice("form", ("list", "set", "generator"))
        arg = some if form == "list" else set(some) if form == "set" else (x for x in some)
        sub = g.subset(arg)
        eng.reach(form)
        verify(eng, sub, {k: want[k] for k in pick}, edges, whole, "subset")
    elif op == "connected":
        subs = g.subsetToConnected()
        groups = components(keys, edges)
        eng.check(len(subs) == len(groups), "wrong number of connected parts")
        for sub in subs:
            mine = {node_key(x) for x in sub}
            eng.check(mine in groups, "a connected part has wrong quanta", str(mine))
            verify(eng, sub, {k: want[k] for k in mine}, edges, whole, "connected part")
        eng.check({node_key(x) for sub in subs for x in sub} == set(keys), "quanta are in no connected part")
    else:
        k = keys[eng.int("k", 0, len(keys) - 1)]
        if op == "one":
            sub, mine = g.subset(by[k]), {k}
        elif op == "neighbours":
            sub = g.determineConnectionsOfQuantumNode(by[k])
            mine = {k} | {x for x, y in edges if y == k} | {y for x, y in edges if x == k}
        else:
            sub = g.determineAncestorsOfQuantumNode(by[k])
            mine = {k}
            while more := {x for x, y in edges if y in mine} - mine:
                mine |= more
        verify(eng, sub, {m: want[m] for m in mine}, edges, whole, op)
    eng.reach(op)
    eng.check(view(g) == before, "making a subset changes the graph")


def files(eng, n):
    g, want, edges, whole = start(eng, n, light=True)
    eng.assume(bool(want))
    keys = list(want)
    how = eng.choice("how", ("pickle", "stream", "uri", "header"))
    if how == "pickle":
        g2 = pickle.loads(pickle.dumps(g))
        verify(eng, g2, want, edges, whole, "pickled graph")
    else:
        fd, name = tempfile.mkstemp(suffix=".qgraph")
        os.close(fd)
        try:
            pick = None if how == "header" or eng.bool("all") else [k for k in keys if eng.bool(f"p{k}")]
            nodes = None if pick is None else [want[k][0] for k in pick]
            mine = want if pick is None else {k: want[k] for k in pick}
            if how == "stream":
                buf = io.BytesIO()
                g.save(buf)
                buf.seek(0)
                g2 = QuantumGraph.load(buf, nodes=nodes)
            elif how == "uri":
                g.saveUri(name)
                if nodes and eng.bool("text"):
                    nodes = [str(i) for i in nodes]
                bad = eng.bool("bad")
                if bad:
                    other = e.uid("unknown")
                    eng.check(outcome(QuantumGraph.loadUri, name, nodes=[*(nodes or ()), other])[0] == "exc",
                              "an unknown node can be loaded")
                    eng.check(outcome(QuantumGraph.loadUri, name, graphID="other")[0] == "exc", "the graph ID is not compared")
                    eng.check(outcome(QuantumGraph.loadUri, name, minimumVersion=99)[0] == "exc", "the file version is not compared")
                    eng.reach("refused")
                g2 = QuantumGraph.loadUri(name, nodes=nodes, graphID=g.graphID if eng.bool("id") else None)
            else:
                g.saveUri(name)
                text = QuantumGraph.readHeader(name)
                eng.check(text is not None and all(str(want[k][0]) in text for k in keys), "the header does not list the nodes")
                eng.reach(how)
                return
            verify(eng, g2, mine, edges, whole, "loaded graph")
            eng.check(len(mine) == len(want) or g2 != g, "a part of a graph is equal to the whole")
            eng.reach("part" if pick is not None else "full")
        finally:
            os.unlink(name)
    eng.reach(how)


def rerun(eng, n):
    g, want, edges, whole = start(eng, n)
    kind = eng.choice("first", ("whole", "loaded", "subset"))
    first = g
    if kind == "loaded":
        g = pickle.loads(pickle.dumps(g))
    elif kind == "subset":
        drop = eng.bool("drop")
        keep = [x for x in g.graph.nodes if not (drop and x.taskDef.label == "a")]
        g = g.subset(keep)
        want = {k: v for k, v in want.items() if not (drop and k[0] == "a")}
    labels = {k[0] for k in want}
    produced = {r[4] for _, q in want.values() for v in q[4].values() for r in v}
    produced |= {r[4] for label in labels for r in whole["init_out"].get(label, ())} | {r[4] for r in whole["global"]}
    new_id, meta = eng.bool("new_id"), eng.bool("meta")
    old_id = g.graphID
    ids = {}
    g.updateRun("new/run", metadata_key="output_run" if meta else None, update_graph_id=new_id)
    eng.check((g.graphID != old_id) == new_id, "wrong graph ID after a change of run")
    eng.check(g.metadata["output_run"] == ("new/run" if meta else OUT), "wrong run in the metadata")

    def out(old, new):
        eng.check(old[:3] == new[:3] and new[3] == "new/run" and new[4] != old[4], "an output does not move to the new run", f"{old} {new}")
        eng.check(ids.setdefault(old[4], new[4]) == new[4], "one dataset gets two new IDs")

    def inp(old, new):
        if old[4] in produced:
            eng.check(new == (*old[:3], "new/run", ids[old[4]]), "an input does not follow the dataset it refers to", f"{old} {new}")
            eng.reach("followed")
        else:
            eng.check(new == old, "an input from elsewhere changes", f"{old} {new}")
            eng.reach("kept")

    by = {node_key(x): x for x in g.graph.nodes}
    eng.check(set(by) == set(want), "quanta are lost")
    pairs = [(q, qv(by[k].quantum)) for k, (_, q) in want.items()]
    for old, new in pairs:
        eng.check(old[:3] == new[:3] and old[6] == new[6], "a quantum changes")
        for a, b in ((old[3], new[3]), (old[4], new[4]), (old[5], new[5])):
            eng.check(list(a) == list(b) and all(len(a[t]) == len(b[t]) for t in a), "a quantum loses datasets")
        for t in old[4]:
            for x, y in zip(old[4][t], new[4][t]):
                out(x, y)
    for x, y in zip(whole["global"], map(rv, g.globalInitOutputRefs()), strict=True):
        out(x, y)
    for label in labels:
        for x, y in zip(whole["init_out"][label], map(rv, g.get_init_output_refs(label)), strict=True):
            out(x, y)
    eng.check(len(set(ids.values())) == len(ids), "two datasets get one ID")
    for label in labels:
        for x, y in zip(whole["init_in"].get(label, ()), map(rv, g.get_init_input_refs(label)), strict=True):
            inp(x, y)
    for old, new in pairs:
        for t in old[3]:
            for x, y in zip(old[3][t], new[3][t]):
                inp(x, y)
        for t in old[5]:
            inp(old[5][t], new[5][t])
    if kind == "loaded" and want:
        eng.check(first != g and not any(x in first for x in g), "a graph in another run is equal")
    # the graph stays usable
    whole2 = whole_of(g)
    whole2["run"] = g.metadata["output_run"]
    verify(eng, g, {k: (want[k][0], qv(x.quantum)) for k, x in by.items()}, edges, whole2, "graph in a new run")
    eng.reach("moved")


def refs(eng, n):
    g, want, edges, whole = start(eng, n, light=True)
    labels = {k[0] for k in want}
    flags = {f: eng.bool(f) for f in ("include_init_inputs", "include_inputs", "include_init_outputs", "include_outputs")}
    inter = eng.choice("inter", (None, True, False))
    conform = eng.bool("conform")
    got, records = g.get_refs(**flags, include_intermediates=inter, conform_outputs=conform)
    cats = {
        "include_init_inputs": [r for label in labels for r in whole["init_in"].get(label, ())],
        "include_inputs": [r for _, q in want.values() for v in q[3].values() for r in v],
        "include_init_outputs": [r for label in labels for r in whole["init_out"].get(label, ())] + whole["global"],
        "include_outputs": [r for _, q in want.values() for v in q[4].values() for r in v],
    }
    shared = {r[4] for f in ("include_init_inputs", "include_inputs") for r in cats[f]}
    shared &= {r[4] for f in ("include_init_outputs", "include_outputs") for r in cats[f]}
    expect = set()
    for f, rs in cats.items():
        for r in rs:
            if (r[4] in shared and inter is True) or (flags[f] and not (r[4] in shared and inter is False)):
                if conform and f.endswith("outputs"):
                    r = (r[0], whole["types"].get(r[0], r[1]), *r[2:])
                expect.add(r)
    eng.check({rv(r) for r in got} == expect, "get_refs does not give exactly what was asked for",
              f"{sorted(r.datasetType.name for r in got)} {sorted(r[0] for r in expect)}")
    have = {i for d in records.values() for i in d.records}
    known = {i for _, q in want.values() for s in q[6].values() for i in s}
    eng.check(have <= known and (have == known or not (flags["include_inputs"])), "datastore records of inputs are lost")
    if shared:
        eng.reach("shared")
    eng.reach(str(inter))


def cases(tier):
    q = tier == "quick"
    out = [
        Case("structure", structure, dict(n=2), "any subset of 5 quanta", ("graph", "edges"), validate_every=50),
        Case("structure-3", structure, dict(n=3, no_b=True), "any subset of 4 quanta", ("graph", "edges"), validate_every=50),
        Case("subset", subsets, dict(n=1), "any subset of 3 quanta, any subset of those",
             ("list", "set", "generator", "one", "connected", "neighbours", "ancestors"), validate_every=20),
        Case("files", files, dict(n=1), "any subset of 3 quanta, any part of them read back",
             ("pickle", "stream", "uri", "header", "part", "full", "refused"), validate_every=50),
        Case("update-run", rerun, dict(n=1), "any subset of 3 quanta, new, loaded or a subset", ("moved", "followed", "kept"), validate_every=20),
        Case("get-refs", refs, dict(n=1), "any subset of 3 quanta, all combinations of options",
             ("shared", "None", "True", "False"), validate_every=100),
    ]
    if not q:
        out += [
            Case("subset-2", subsets, dict(n=2), "any subset of 5 quanta, any subset of those",
                 ("list", "generator", "connected"), validate_every=500, time_cap=3000),
            Case("update-run-2", rerun, dict(n=2), "any subset of 5 quanta", ("moved", "followed", "kept"), validate_every=500, time_cap=3000),
        ]
    return out
