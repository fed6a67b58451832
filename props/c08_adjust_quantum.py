"""C08: per-quantum input/output rules (minimum, scalar, adjustment, distribution over connections)."""

from __future__ import annotations

import dataclasses
import uuid

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import DatasetRef, DatasetType, NamedKeyDict, Quantum
from lsst.pipe.base import AdjustQuantumHelper, NoWorkFound, PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base.connections import DeferredDatasetRef, ScalarError

from symx.core import outcome
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = ["dataset types and data IDs are concrete; connection limits are symbolic integers, the number of datasets "
               "per connection ranges over 0..3 (thorough: 0..4)"]
SC = te.SC
DIM = ("instrument", "detector")
NAMES = dict(a="in_a", b="in_b", p="in_p", x="out_x", y="out_y")


class Base(PipelineTaskConnections, dimensions=("instrument",)):
    a = cT.Input(name="in_a", storageClass=SC, dimensions=DIM, multiple=True)
    b = cT.Input(name="in_b", storageClass=SC, dimensions=DIM, multiple=True)
    p = cT.PrerequisiteInput(name="in_p", storageClass=SC, dimensions=DIM, multiple=True)
    x = cT.Output(name="out_x", storageClass=SC, dimensions=DIM, multiple=True)
    y = cT.Output(name="out_y", storageClass=SC, dimensions=DIM, multiple=True)
    changes: dict = {}

    def __init__(self, *, config=None):
        for k, v in type(self).changes.items():
            setattr(self, k, dataclasses.replace(getattr(self, k), **v))


class Cfg(PipelineTaskConfig, pipelineConnections=Base):
    pass


class Custom(Base, dimensions=("instrument",)):
    answer = None
    call_super = False
    seen = None

    def adjustQuantum(self, inputs, outputs, label, data_id):
        type(self).seen = (inputs, outputs, label, data_id)
        if type(self).call_super:
            super().adjustQuantum(inputs, outputs, label, data_id)
        return type(self).answer(self, inputs, outputs)


class CustomCfg(PipelineTaskConfig, pipelineConnections=Custom):
    pass


TYPES = {k: DatasetType(v, te.UNIVERSE.conform(DIM), SC) for k, v in NAMES.items()}
_DIDS = [te.data_id(k) for k in range(5)]
QID = te.DataCoordinate.standardize(instrument="I", universe=te.UNIVERSE)


def refs(name, n, off=0):
    return [DatasetRef(TYPES[name], _DIDS[k], run="r", id=uuid.uuid5(uuid.UUID(int=3), f"{name}{k + off}")) for k in range(n)]


def limits(eng, which, symbolic_min):
    ch = {}
    for k in which:
        d = dict(multiple=bool(eng.bool(f"multi_{k}")))
        if k in "abp" and symbolic_min:
            d["minimum"] = eng.int(f"min_{k}", -2, 9)
            if not d["multiple"]:
                eng.assume(d["minimum"] <= 1)
        ch[k] = d
    return ch


def standard(eng, which, nmax):
    ch = limits(eng, which, True)
    Base.changes = ch
    conns = Base(config=Cfg())
    n = {k: eng.choice(f"n_{k}", range(nmax + 1)) for k in which}
    for k in NAMES:
        n.setdefault(k, 1)
    allrefs = {k: refs(k, n[k]) for k in NAMES}
    ins = NamedKeyDict({TYPES[k]: allrefs[k] for k in "abp"})
    outs = NamedKeyDict({TYPES[k]: allrefs[k] for k in "xy"})
    h = AdjustQuantumHelper(inputs=ins.freeze(), outputs=outs.freeze())
    kind, v = outcome(h.adjust_in_place, conns, "lab", QID)

    def mn(k):
        return ch.get(k, {}).get("minimum", 1)

    scalar = eng.any_of(*[k in ch and not ch[k]["multiple"] and n[k] > 1 for k in which])
    nowork = eng.any_of(*[n[k] < mn(k) for k in "ab"])
    missing = eng.any_of(n["p"] < mn("p"))
    if kind == "ok":
        eng.check(neg(eng, eng.any_of(scalar, nowork, missing)), "an invalid quantum passes the input/output rules")
        eng.check({k.name: list(r) for k, r in h.inputs.items()} == {NAMES[k]: allrefs[k] for k in "abp"}
                  and {k.name: list(r) for k, r in h.outputs.items()} == {NAMES[k]: allrefs[k] for k in "xy"},
                  "the default rules changed the datasets")
        eng.check(not h.inputs_adjusted and not h.outputs_adjusted, "claims an adjustment that did not happen")
        eng.reach("ok")
    elif isinstance(v, ScalarError):
        eng.check(scalar, "scalar connection error although no scalar connection has several datasets")
        eng.reach("scalar")
    elif isinstance(v, NoWorkFound):
        eng.check(nowork, "no-work although every regular input has enough datasets", repr(v))
        eng.reach("nowork")
    elif isinstance(v, FileNotFoundError):
        eng.check(missing, "missing-prerequisite error although every prerequisite has enough datasets")
        eng.reach("missing")
    else:
        eng.check(False, "unexpected error from the input/output rules", repr(v))


def neg(eng, c):
    return (~c if eng.symbolic and not isinstance(c, bool) else not c)


def custom(eng, nmax):
    """A task's own adjustment may only remove datasets."""
    Base.changes = Custom.changes = {}
    n = {k: eng.choice(f"n_{k}", range(1, nmax + 1)) if k in "ax" else 1 for k in NAMES}
    allrefs = {k: refs(k, n[k]) for k in NAMES}
    plan, foreign, ret = {}, False, {}
    for k in "ax":
        mode = eng.choice(f"mode_{k}", ("absent", "subset", "foreign-id", "foreign-dataid"))
        if mode == "absent":
            continue
        keep = [r for i, r in enumerate(allrefs[k]) if eng.bool(f"keep_{k}{i}")]
        if mode == "foreign-id":
            keep = keep + [refs(k, 1, off=77)[0]]
        elif mode == "foreign-dataid":
            keep = keep + [DatasetRef(TYPES[k], _DIDS[4], run="r", id=uuid.UUID(int=5))]
        foreign |= mode.startswith("foreign")
        plan[k] = keep
    Custom.call_super = bool(eng.bool("super"))
    Custom.answer = lambda self, i, o: (
        {k: (i[k][0], plan[k]) for k in plan if k in i}, {k: (o[k][0], plan[k]) for k in plan if k in o})
    conns = Custom(config=CustomCfg())
    ins = NamedKeyDict({TYPES[k]: allrefs[k] for k in "abp"}).freeze()
    outs = NamedKeyDict({TYPES[k]: allrefs[k] for k in "xy"}).freeze()
    h = AdjustQuantumHelper(inputs=ins, outputs=outs)
    kind, v = outcome(h.adjust_in_place, conns, "lab", QID)
    si, so, sl, sd = Custom.seen
    eng.check({k: list(r) for k, (_, r) in si.items()} == {k: allrefs[k] for k in "abp"}
              and {k: list(r) for k, (_, r) in so.items()} == {k: allrefs[k] for k in "xy"} and sl == "lab" and sd == QID
              and all(c.name == NAMES[k] for m in (si, so) for k, (c, _) in m.items()),
              "the task's adjustment was given other datasets than the quantum's")
    if foreign:
        eng.check(kind == "exc", "an adjustment added a dataset that was not there")
        eng.reach("foreign")
        return
    eng.check(kind == "ok", "a legal adjustment was refused", repr(v))
    got = {k.name: list(r) for m in (h.inputs, h.outputs) for k, r in m.items()}
    for k in NAMES:
        eng.check(sorted(got[NAMES[k]]) == sorted(plan.get(k, allrefs[k])), "adjusted datasets are not those the task asked for",
                  f"{k}")
    eng.check(h.inputs_adjusted == ("a" in plan) and h.outputs_adjusted == ("x" in plan), "adjustment flags are wrong")
    eng.reach("adjusted" if plan else "same")


def distribute(eng, nmax):
    """Datasets of the quantum reach exactly their connection."""
    ch = {k: dict(multiple=bool(eng.bool(f"multi_{k}"))) for k in "abxp"}
    for k in "ap":
        ch[k]["deferLoad"] = bool(eng.bool(f"defer_{k}"))
    Base.changes = ch
    conns = Base(config=Cfg())
    n = {k: eng.choice(f"n_{k}", range(nmax + 1)) if k in "ab" else 1 for k in NAMES}
    n["x"] = 1 if not ch["x"]["multiple"] else 2
    allrefs = {k: refs(k, n[k]) for k in NAMES}
    q = Quantum(taskName="t", dataId=QID, inputs={TYPES[k]: allrefs[k] for k in "abp"},
                outputs={TYPES[k]: allrefs[k] for k in "xy"})
    kind, v = outcome(conns.buildDatasetRefs, q)
    if any(not ch[k]["multiple"] and n[k] > 1 for k in "abp"):
        eng.check(kind == "exc" and isinstance(v, ScalarError), "several datasets for a scalar connection were accepted", repr(v))
        eng.reach("scalar")
        return
    eng.check(kind == "ok", "distribution over connections failed", repr(v))
    i, o = v
    got = {}
    for k, val in i:
        got[k] = val
    for k, val in o:
        got[k] = val
    for k in NAMES:
        multiple = ch.get(k, {}).get("multiple", True)
        if not multiple and n[k] == 0:
            eng.check(k not in got, "an absent scalar input got a value")
            continue
        eng.check(k in got, "a connection got no value", k)
        vals = list(got[k]) if multiple else [got[k]]
        eng.check(isinstance(got[k], (list, tuple)) == multiple, "scalar/multiple mixed up", k)
        want_defer = k in "ap" and ch[k]["deferLoad"]
        eng.check(all(isinstance(r, DeferredDatasetRef) == want_defer for r in vals), "deferred loading mixed up", k)
        eng.check([r.datasetRef if want_defer else r for r in vals] == list(q.inputs[NAMES[k]] if k in "abp" else q.outputs[NAMES[k]]),
                  "a connection got other datasets than its own", k)
    eng.check(set(got) <= set(NAMES), "unknown connection")
    eng.reach("ok")


def cases(tier):
    t = tier == "thorough"
    m = 4 if t else 3
    out = [
        Case("rules-inputs", standard, dict(which="abp", nmax=m if t else 2), f"0..{m} datasets, any minimum, scalar or multiple",
             ("ok", "scalar", "nowork", "missing"), time_cap=600),
        Case("rules-outputs", standard, dict(which="axy", nmax=m), "inputs and outputs", ("ok", "scalar", "nowork"), time_cap=600),
        Case("rules-prereq", standard, dict(which="px", nmax=m), "prerequisite limits", ("ok", "scalar", "missing"), time_cap=600),
        Case("custom", custom, dict(nmax=m - 1), "any subset or foreign dataset returned", ("foreign", "adjusted", "same"),
             time_cap=600),
        Case("distribute", distribute, dict(nmax=m - 1), "scalar/multiple/deferred", ("ok", "scalar"), time_cap=600),
    ]
    return out
