"""A real pipeline task, its graph node and dataset refs, used by several checks."""

from __future__ import annotations

import contextlib
import os
import tempfile
import uuid

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import Butler, DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, LimitedButler, Quantum
from lsst.daf.butler._butler_metrics import ButlerMetrics
from lsst.daf.butler.logging import ButlerLogRecords
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base.pipeline_graph import PipelineGraph

from symx.core import Stub

UNIVERSE = DimensionUniverse()
SC = "StructuredDataDict"
RUN = "run"


class Conn1(PipelineTaskConnections, dimensions=("instrument", "detector")):
    a = cT.Input(name="in_a", storageClass=SC, dimensions=("instrument", "exposure", "detector"), multiple=True,
                 minimum=1)
    p = cT.PrerequisiteInput(name="in_p", storageClass=SC, dimensions=("instrument", "detector"), minimum=0)
    x = cT.Output(name="out_x", storageClass=SC, dimensions=("instrument", "detector"))
    y = cT.Output(name="out_y", storageClass=SC, dimensions=("instrument", "exposure", "detector"), multiple=True)


class Cfg1(PipelineTaskConfig, pipelineConnections=Conn1):
    pass


class Conn2(PipelineTaskConnections, dimensions=("instrument", "detector")):
    a = cT.Input(name="in_a", storageClass=SC, dimensions=("instrument", "exposure", "detector"), multiple=True,
                 minimum=2)
    p = cT.PrerequisiteInput(name="in_p", storageClass=SC, dimensions=("instrument", "detector"), minimum=1)
    x = cT.Output(name="out_x", storageClass=SC, dimensions=("instrument", "detector"))
    y = cT.Output(name="out_y", storageClass=SC, dimensions=("instrument", "exposure", "detector"), multiple=True)


class Cfg2(PipelineTaskConfig, pipelineConnections=Conn2):
    pass


class Task1(PipelineTask):
    ConfigClass = Cfg1
    _DefaultName = "one"
    script = None

    def runQuantum(self, butlerQC, inputRefs, outputRefs):
        type(self).script(self, butlerQC, inputRefs, outputRefs)


class Task2(Task1):
    ConfigClass = Cfg2
    _DefaultName = "two"


class Conn3(Conn1, dimensions=("instrument", "detector")):
    """Drops the outputs for which there is no input."""

    def adjustQuantum(self, inputs, outputs, label, data_id):
        adjusted, _ = super().adjustQuantum(inputs, outputs, label, data_id)
        have = {r.dataId["exposure"] for r in adjusted.get("a", inputs["a"])[1]}
        conn, refs = outputs["y"]
        return adjusted, {"y": (conn, [r for r in refs if r.dataId["exposure"] in have])}


class Cfg3(PipelineTaskConfig, pipelineConnections=Conn3):
    pass


class Task3(Task1):
    ConfigClass = Cfg3
    _DefaultName = "three"


def node(cls, label, log=True):
    cfg = cls.ConfigClass()
    if not log:
        cfg.saveLogOutput = False
    g = PipelineGraph(universe=UNIVERSE)
    g.add_task(label, cls, cfg)
    g.resolve(dimensions=UNIVERSE, dataset_types={})
    return g.tasks[label], g


def data_id(detector=0, **kw):
    return DataCoordinate.standardize(instrument="I", detector=detector, universe=UNIVERSE, **kw)


_n = [0]


def ref(dataset_type, data, tag):
    return DatasetRef(dataset_type, data, run=RUN, id=uuid.uuid5(uuid.UUID(int=5), f"{dataset_type.name}-{data}-{tag}"))


def quantum_for(task_node, graph, n_a=2, n_y=2, detector=0, prereq=True, records=None):
    """Quantum with all the inputs and outputs of the task."""
    dt = {k: v.dataset_type for k, v in graph.dataset_types.items()}
    d = data_id(detector)

    def exp(e):
        return DataCoordinate.standardize(instrument="I", detector=detector, exposure=e, universe=UNIVERSE,
                                          group="g", physical_filter="f", band="b", day_obs=1)

    inputs = {dt["in_a"]: [ref(dt["in_a"], exp(e), "i") for e in range(n_a)],
              dt["in_p"]: [ref(dt["in_p"], d, "i")] if prereq else []}
    outputs = {dt["out_x"]: [ref(dt["out_x"], d, "o")],
               dt["out_y"]: [ref(dt["out_y"], exp(e), "o") for e in range(n_y)]}
    meta = task_node.metadata_output.dataset_type_name
    outputs[dt[meta]] = [ref(dt[meta], d, "o")]
    if task_node.log_output is not None:
        log = task_node.log_output.dataset_type_name
        outputs[dt[log]] = [ref(dt[log], d, "o")]
    init = {dt[e.parent_dataset_type_name]: ref(dt[e.parent_dataset_type_name],
                                                DataCoordinate.make_empty(UNIVERSE), "init")
            for e in task_node.init.inputs.values()}
    return Quantum(taskName=task_node.task_class_name, taskClass=task_node.task_class, dataId=d, initInputs=init,
                   inputs=inputs, outputs=outputs, datastore_records=records)


class Store(Stub):
    """LimitedButler stand-in: existence of datasets is decided by `initial`."""

    def __init__(self, initial):
        self.initial = initial  # id -> bool-like, asked lazily
        self.known = {}
        self.objects = {}
        self.log = []
        self.closed = 0
        self.checked = set()
        self.put_fails = None

    dimensions = UNIVERSE

    def _has(self, ref):
        if ref.id not in self.known:
            self.known[ref.id] = bool(self.initial(ref))
        return self.known[ref.id]

    def stored(self, ref):
        self.checked.add(ref.id)
        return self._has(ref)

    def stored_many(self, refs):
        return {r: self.stored(r) for r in refs}

    def put(self, obj, ref, /, *, provenance=None):
        if self.put_fails is not None and self.put_fails(ref):
            raise OSError("disk full")
        self.log.append(("put", ref, obj))
        self.known[ref.id] = True
        self.objects[ref.id] = obj
        return ref

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.log.append(("get", ref))
        if not self._has(ref):
            raise FileNotFoundError(str(ref))
        return self.objects[ref.id]

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        self.log.append(("get", ref))
        return ("deferred", ref)

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        if purge and not (disassociate and unstore) or not purge and disassociate:
            raise TypeError("this combination of flags is refused by butlers")
        refs = list(refs)
        self.log.append(("prune", refs, dict(disassociate=disassociate, unstore=unstore, purge=purge)))
        if unstore:
            for r in refs:
                self.known[r.id] = False

    @contextlib.contextmanager
    def record_metrics(self, metrics=None):
        yield ButlerMetrics()

    def close(self):
        self.closed += 1

    def isWriteable(self):
        return True


LimitedButler.register(Store)


class FullStore(Store):
    """Butler stand-in: a Store with an output run and a registry."""

    run = RUN

    class registry:
        @staticmethod
        def refresh():
            pass

    def __init__(self, initial, chain=()):
        super().__init__(initial)
        self.chain = tuple(chain)
        outer = self

        class collections(Stub):
            def query(self, expression, *, flatten_chains=False, **kw):
                return [c for c in ((expression,) if isinstance(expression, str) else expression)
                        if c != "chain"] + (list(outer.chain) if flatten_chains and "chain" in expression else [])

        self.collections = collections()


Butler.register(FullStore)


class Temporary(Stub):
    """TemporaryForIngest stand-in."""

    def __init__(self, butler, ref):
        self.butler, self.ref = butler, ref

    def __enter__(self):
        fd, self.ospath = tempfile.mkstemp(suffix=".json", prefix="verif-log-")
        os.close(fd)
        return self

    def ingest(self):
        self.butler.put(ButlerLogRecords.from_file(self.ospath), self.ref)

    def __exit__(self, *args):
        os.unlink(self.ospath)
        return None
