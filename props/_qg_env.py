"""A small real pipeline (two tasks, init datasets, metadata consumed downstream) and its predicted quantum graph."""

from __future__ import annotations

import datetime
import os
import uuid
import zipfile

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import DataCoordinate, DimensionDataAttacher, DimensionRecordSet, DimensionUniverse
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base import automatic_connection_constants as acc
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.quantum_graph import (PredictedDatasetModel, PredictedInitQuantaModel,
                                          PredictedQuantumDatasetsModel, PredictedQuantumGraphComponents)
from lsst.pipe.base.quantum_graph._common import HeaderModel
from lsst.pipe.base import Struct



def _shared_file_seek(self, offset, whence=0):
    """zipfile._SharedFile.seek as in later CPython releases: up to 3.12.3 a
    relative seek starts from wherever another open member left the file."""
    with self._lock:
        if whence == os.SEEK_CUR:
            self._file.seek(self._pos + offset)
        else:
            self._file.seek(offset, whence)
        self._pos = self._file.tell()
        return self._pos


zipfile._SharedFile.seek = _shared_file_seek

UNIVERSE = DimensionUniverse()
SC = "StructuredDataDict"
RUN = "out/run"


class ConnA(PipelineTaskConnections, dimensions=("instrument", "detector")):
    schema = cT.InitOutput(name="a_schema", storageClass=SC)
    raw = cT.Input(name="raw", storageClass=SC, dimensions=("instrument", "detector"))
    cal = cT.PrerequisiteInput(name="cal", storageClass=SC, dimensions=("instrument",))
    mid = cT.Output(name="mid", storageClass=SC, dimensions=("instrument", "detector"))


class CfgA(PipelineTaskConfig, pipelineConnections=ConnA):
    pass


class TaskA(PipelineTask):
    ConfigClass = CfgA
    _DefaultName = "a"
    made = []

    def __init__(self, *, initInputs=None, **kwargs):
        super().__init__(**kwargs)
        type(self).made.append("a")
        self.schema = {"from": "a"}


class ConnB(PipelineTaskConnections, dimensions=("instrument",)):
    in_schema = cT.InitInput(name="a_schema", storageClass=SC)
    schema = cT.InitOutput(name="b_schema", storageClass=SC)
    mid = cT.Input(name="mid", storageClass=SC, dimensions=("instrument", "detector"), multiple=True)
    md = cT.Input(name="a_metadata", storageClass="TaskMetadata", dimensions=("instrument", "detector"), multiple=True)
    out = cT.Output(name="out", storageClass=SC, dimensions=("instrument",))


class CfgB(PipelineTaskConfig, pipelineConnections=ConnB):
    pass


class TaskB(PipelineTask):
    ConfigClass = CfgB
    _DefaultName = "b"
    made = []

    def __init__(self, *, initInputs=None, **kwargs):
        super().__init__(**kwargs)
        type(self).made.append(initInputs)
        self.schema = {"from": "b", "got": (initInputs or {}).get("in_schema")}


def pipeline():
    g = PipelineGraph(universe=UNIVERSE)
    g.add_task("a", TaskA, CfgA())
    g.add_task("b", TaskB, CfgB())
    g.resolve(dimensions=UNIVERSE, dataset_types={})
    return g


PIPELINE = pipeline()


def uid(text):
    return uuid.uuid5(uuid.UUID(int=5), text)


def ds(name, coordinate=(), run=RUN):
    return PredictedDatasetModel(dataset_id=uid(f"{name}{coordinate}"), dataset_type_name=name,
                                 data_coordinate=list(coordinate), run=run)


def init_quanta(tasks=("a", "b")):
    out = [PredictedQuantumDatasetsModel(quantum_id=uid("init"), task_label="", outputs={
        acc.PACKAGES_INIT_OUTPUT_NAME: [ds("packages")]})]
    if "a" in tasks:
        out.append(PredictedQuantumDatasetsModel(quantum_id=uid("init-a"), task_label="a", outputs={
            "schema": [ds("a_schema")], acc.CONFIG_INIT_OUTPUT_CONNECTION_NAME: [ds("a_config")]}))
    if "b" in tasks:
        out.append(PredictedQuantumDatasetsModel(
            quantum_id=uid("init-b"), task_label="b",
            inputs={"in_schema": [ds("a_schema", run=RUN if "a" in tasks else "in/run")]},
            outputs={"schema": [ds("b_schema")], acc.CONFIG_INIT_OUTPUT_CONNECTION_NAME: [ds("b_config")]}))
    return out


def quantum_a(d):
    c = ("I", d)
    return PredictedQuantumDatasetsModel(
        quantum_id=uid(f"a{d}"), task_label="a", data_coordinate=list(c),
        inputs={"raw": [ds("raw", c, "in/run")], "cal": [ds("cal", ("I",), "in/run")]},
        outputs={"mid": [ds("mid", c)], acc.METADATA_OUTPUT_CONNECTION_NAME: [ds("a_metadata", c)],
                 acc.LOG_OUTPUT_CONNECTION_NAME: [ds("a_log", c)]})


def quantum_b(detectors, run=RUN):
    c = ("I",)
    return PredictedQuantumDatasetsModel(
        quantum_id=uid("b"), task_label="b", data_coordinate=list(c),
        inputs={"mid": [ds("mid", ("I", d), run) for d in detectors],
                "md": [ds("a_metadata", ("I", d), run) for d in detectors]},
        outputs={"out": [ds("out", c)], acc.METADATA_OUTPUT_CONNECTION_NAME: [ds("b_metadata", c)],
                 acc.LOG_OUTPUT_CONNECTION_NAME: [ds("b_log", c)]})


def components(quanta, init=None, header=None, pipeline=None):
    header = header or HeaderModel(inputs=["in/run"], output="out", output_run=RUN, user="u", command="c",
                                   timestamp=datetime.datetime(2026, 1, 1), provenance_dataset_id=uid("prov"))
    c = PredictedQuantumGraphComponents(header=header, pipeline_graph=pipeline or PIPELINE)
    c.init_quanta = PredictedInitQuantaModel(root=init_quanta() if init is None else init)
    c.quantum_datasets = {q.quantum_id: q for q in quanta}
    c.dimension_data = dimension_data()
    c.set_thin_graph()
    c.set_header_counts()
    return c


def records():
    ins = UNIVERSE["instrument"].RecordClass(name="I", visit_max=10, exposure_max=10, detector_max=10,
                                             class_name="x.Y", visit_system=0)
    dets = [UNIVERSE["detector"].RecordClass(instrument="I", id=k, full_name=f"d{k}") for k in range(4)]
    return ins, dets


def dimension_data():
    ins, dets = records()
    return DimensionDataAttacher(
        records=[DimensionRecordSet(UNIVERSE["instrument"], [ins]), DimensionRecordSet(UNIVERSE["detector"], dets)],
        dimensions=UNIVERSE.conform(["instrument", "detector"]))


def all_outputs(q):
    return [d for v in q.outputs.values() for d in v]


def all_inputs(q):
    return [d for v in q.inputs.values() for d in v]
