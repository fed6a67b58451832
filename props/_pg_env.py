"""A task whose connections are switched on by its config, and helpers for pipeline graphs made of it."""

from __future__ import annotations

import dataclasses
import logging

import lsst.pex.config as pexConfig
import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base.pipeline_graph import PipelineGraph

UNIVERSE = DimensionUniverse()
SC = "StructuredDataDict"
logging.getLogger("lsst.pipe.base").setLevel(logging.CRITICAL)

# connection name -> (kind, dataset type)
CONNECTIONS = {
    "r0": ("in", "d0"), "r1": ("in", "d1"), "r2": ("in", "d2"),
    "w0": ("out", "d0"), "w1": ("out", "d1"), "w2": ("out", "d2"),
    "p0": ("pre", "c0"),
    "ir0": ("initin", "s0"), "iw0": ("initout", "s0"), "ir1": ("initin", "s1"), "iw1": ("initout", "s1"),
    "m0": ("in", "t0_metadata"), "m1": ("in", "t1_metadata"),
}
_DIMS = ("instrument",)
DROPPED = set()  # connections that the class has no more
CHANGED = {}  # connection -> what the class says differently about it


class Conn(PipelineTaskConnections, dimensions=_DIMS):
    r0 = cT.Input(name="d0", storageClass=SC, dimensions=_DIMS)
    r1 = cT.Input(name="d1", storageClass=SC, dimensions=_DIMS)
    r2 = cT.Input(name="d2", storageClass=SC, dimensions=_DIMS)
    w0 = cT.Output(name="d0", storageClass=SC, dimensions=_DIMS)
    w1 = cT.Output(name="d1", storageClass=SC, dimensions=_DIMS)
    w2 = cT.Output(name="d2", storageClass=SC, dimensions=_DIMS)
    p0 = cT.PrerequisiteInput(name="c0", storageClass=SC, dimensions=_DIMS)
    ir0 = cT.InitInput(name="s0", storageClass=SC)
    iw0 = cT.InitOutput(name="s0", storageClass=SC)
    ir1 = cT.InitInput(name="s1", storageClass=SC)
    iw1 = cT.InitOutput(name="s1", storageClass=SC)
    m0 = cT.Input(name="t0_metadata", storageClass="TaskMetadata", dimensions=_DIMS)
    m1 = cT.Input(name="t1_metadata", storageClass="TaskMetadata", dimensions=_DIMS)

    def __init__(self, *, config=None):
        for name in CONNECTIONS:
            if name not in config.keep or name in DROPPED:
                delattr(self, name)
            elif name in CHANGED:
                setattr(self, name, dataclasses.replace(getattr(self, name), **CHANGED[name]))


class Cfg(PipelineTaskConfig, pipelineConnections=Conn):
    keep = pexConfig.ListField(dtype=str, default=[], doc="connections")
    other = pexConfig.Field(dtype=int, default=0, doc="something else")


class DynTask(PipelineTask):
    ConfigClass = Cfg
    _DefaultName = "dyn"


def config(keep, other=0, log=True):
    c = Cfg()
    c.keep = sorted(keep)
    c.other = other
    c.saveLogOutput = log
    return c


def edges(label, keep, log=True):
    """What the graph should have for a task: {(kind, connection, dataset type)}."""
    out = {(*CONNECTIONS[k][:1], k, CONNECTIONS[k][1]) for k in keep}
    out |= {("initout", "_config", f"{label}_config"), ("out", "_metadata", f"{label}_metadata")}
    if log:
        out.add(("out", "_log", f"{label}_log"))
    return out


READS = ("in", "pre", "initin")
INIT = ("initin", "initout")


def make(tasks):
    g = PipelineGraph()
    for label, keep in tasks.items():
        g.add_task(label, DynTask, config(keep))
    return g
