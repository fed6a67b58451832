"""C23: resolving dataset types: one definition per dataset type, that every task and the repository agree with."""

from __future__ import annotations

import dataclasses

from lsst.daf.butler import DatasetRef, DimensionConfig, DimensionUniverse, DatasetType, DataCoordinate, MissingDatasetTypeError, StorageClass, StorageClassFactory
from lsst.pipe.base.pipeline_graph import (ConnectionTypeConsistencyError, DuplicateOutputError, IncompatibleDatasetTypeError,
                                           PipelineGraph)
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, DynamicTestPipelineTask, DynamicTestPipelineTaskConfig

from symx.core import outcome
from symx.runner import Case

from . import _pg_env as p

ASSUMPTIONS = [
    "one dataset type with up to two producers and three consumers; the storage classes are SA, SB (SA can be read as SB) and SC (unrelated)",
    "components are read with the dimensions of their parent (a mismatch is not diagnosed by the code, and existing tests have one)",
    "whether a consumer with a 'skypix' placeholder can take the dimensions from another consumer is left open",
    "when a pipeline breaks several rules, any of the exceptions documented for them may be raised",
]

U = p.UNIVERSE
_other = DimensionConfig()
_other["namespace"] = "c23"
U2 = DimensionUniverse(_other)
_f = StorageClassFactory()
_x = StorageClass("C23SX", pytype=int)
_y = StorageClass("C23SY", pytype=str, converters={"builtins.int": "builtins.str"})
_a = StorageClass("C23SA", pytype=dict, derivedComponents={"x": _x})
_b = StorageClass("C23SB", pytype=list, converters={"builtins.dict": "builtins.list"})
_c = StorageClass("C23SC", pytype=set)
for _s in (_x, _y, _a, _b, _c):
    _f.registerStorageClass(_s)

DIMS = {"i": ("instrument",), "d": ("instrument", "detector"), "h": ("htm7",), "sky": ("skypix",), "": ()}


def convertible(to, frm):
    """Whether data of storage class frm can be read as storage class to."""
    return to == frm or (to, frm) in (("C23SB", "C23SA"), ("C23SY", "C23SX"))


@dataclasses.dataclass(frozen=True)
class Def:
    dims: str = "d"
    sc: str = "C23SA"
    calib: bool = False

    def dataset_type(self):
        return DatasetType("D", U.conform(DIMS[self.dims]), self.sc, isCalibration=self.calib)


@dataclasses.dataclass(frozen=True)
class Use:
    kind: str  # out, in, pre, initin, initout
    d: Def
    component: bool = False
    defer: bool = False


def connect(label, use):
    c = DynamicTestPipelineTaskConfig()
    c.dimensions = ["instrument", "detector"]
    where = {"out": c.outputs, "in": c.inputs, "pre": c.prerequisite_inputs, "initin": c.init_inputs, "initout": c.init_outputs}[use.kind]
    extra = {} if use.kind in ("initin", "initout") else dict(dimensions=list(DIMS[use.d.dims]), is_calibration=use.d.calib, multiple=True)
    if use.kind in ("in", "pre"):
        extra["minimum"] = 0 if use.defer else 1
    where["c"] = DynamicConnectionConfig(dataset_type_name="D.x" if use.component else "D", storage_class=use.d.sc, mock_storage_class=False, **extra)
    return c


def expect(uses, registered):
    """The acceptable exceptions (none if the definitions are fine), whether they are only possible ones, and the definition."""
    errors, maybe = set(), False
    producers = [u for u in uses.values() if u.kind in ("out", "initout")]
    consumers = [u for u in uses.values() if u.kind not in ("out", "initout")]
    current = registered
    if len(producers) > 1:
        errors.add(DuplicateOutputError)
    for u in producers:
        if registered:
            if (registered.dims, registered.calib) != (u.d.dims, u.d.calib) or not convertible(registered.sc, u.d.sc):
                errors.add(IncompatibleDatasetTypeError)
        elif current is None:
            current = u.d
    kinds = {u.kind == "pre" for u in consumers} | ({False} if producers else set())
    if len(kinds) > 1:
        errors.add(ConnectionTypeConsistencyError)
    fixed = current is not None
    plain = [u for u in consumers if not u.component]
    if not fixed and (definite := [u for u in plain if u.d.dims != "sky"]):
        current = definite[0].d
    for u in plain:
        if u.d.dims == "sky":
            if current is None:
                errors.add(MissingDatasetTypeError)
            elif current.dims != "h":
                errors.add(IncompatibleDatasetTypeError)
                maybe |= not fixed
            elif not fixed:
                maybe = True
            if current is not None and (u.d.calib != current.calib or not (convertible(u.d.sc, current.sc) if fixed else u.d.sc == current.sc)):
                errors.add(IncompatibleDatasetTypeError if fixed else MissingDatasetTypeError)
        elif fixed:
            if (u.d.dims, u.d.calib) != (current.dims, current.calib) or not convertible(u.d.sc, current.sc):
                errors.add(IncompatibleDatasetTypeError)
        elif u.d != current:
            errors.add(MissingDatasetTypeError)
    for u in consumers:
        if u.component:
            if current is None:
                errors.add(MissingDatasetTypeError)
            elif current.sc != "C23SA" or not convertible(u.d.sc, "C23SX"):
                errors.add(IncompatibleDatasetTypeError)
    if maybe:
        errors.add(MissingDatasetTypeError)
    return errors, maybe, current


class Registry:
    """A registry that knows one dataset type, or none."""

    dimensions = U

    def __init__(self, known):
        self.known = known

    def getDatasetType(self, name):
        try:
            return self.known[name]
        except KeyError:
            raise MissingDatasetTypeError(name) from None


def resolve(eng, g, uses, registered, by_registry):
    known = {"D": registered.dataset_type()} if registered else {}
    errors, maybe, current = expect(uses, registered)
    kind, r = outcome(lambda: g.resolve(Registry(known)) if by_registry else g.resolve(dimensions=U, dataset_types=known))
    if kind == "exc":
        eng.check(bool(errors) and isinstance(r, tuple(errors)), "consistent definitions were refused, or for a wrong reason",
                  f"{uses} {registered} {r!r} {errors}")
        eng.reach(type(r).__name__)
        return False
    eng.check(not errors or maybe, "inconsistent definitions were accepted", f"{uses} {registered} {errors}")
    eng.assume(not maybe)
    node = g.dataset_types["D"]
    eng.check(g.universe is U and all(x.dimensions.universe is U for x in g.tasks.values()) and node.dimensions.universe is U,
              "dimensions of another universe")
    eng.check(g.is_fully_resolved and g.dataset_types.is_resolved("D"), "the graph was not resolved")
    eng.check(node.dataset_type == current.dataset_type() and node.name == "D" and node.storage_class_name == current.sc and
              node.is_calibration == current.calib and node.dimensions == U.conform(DIMS[current.dims]), "wrong definition",
              f"{uses} {registered} {node}")
    producers = [t for t, u in uses.items() if u.kind in ("out", "initout")]
    consumers = [t for t, u in uses.items() if u.kind not in ("out", "initout")]
    eng.check(node.is_prerequisite == any(u.kind == "pre" for u in uses.values()), "wrong prerequisite flag", str(uses))
    eng.check(node.is_initial_query_constraint == (not producers and all(uses[t].kind == "in" and not uses[t].defer for t in consumers)),
              "wrong constraint of the initial query", f"{uses} {node.is_initial_query_constraint}")
    eng.check(([node.producing_edge.task_label] if node.producing_edge else []) == producers and
              sorted(e.task_label for e in node.consuming_edges) == sorted(consumers), "wrong edges of a dataset type", str(uses))
    for e in [*node.consuming_edges, *([node.producing_edge] if node.producing_edge else [])]:
        u = uses[e.task_label]
        eng.check(g.tasks[e.task_label].is_optional(e.connection_name) == u.defer, "an input is wrongly optional or required", str(u))
        t = e.adapt_dataset_type(node.dataset_type)
        eng.check(t.name == ("D.x" if u.component else "D") and t.storageClass_name == u.d.sc and t.dimensions == node.dimensions,
                  "a task gets another dataset type than it asked for", f"{u} {t}")
        full = {"instrument": "I", "detector": 1, "htm7": 200000}
        ref = DatasetRef(node.dataset_type, DataCoordinate.standardize({k: full[k] for k in node.dimensions.required}, universe=U), run="r")
        mine = e.adapt_dataset_ref(ref)
        eng.check(mine.datasetType == t and mine.id == ref.id and mine.dataId == ref.dataId, "a task gets another dataset than it asked for")
        back = node.generalize_ref(mine)
        eng.check(back == ref and back.datasetType == ref.datasetType, "a dataset of a task cannot be found in the graph", repr(back))
    for pre in (False, True):
        groups = g.group_by_dimensions(prerequisites=pre)
        eng.check(sorted(t for a, _ in groups.values() for t in a) == sorted(uses) and
                  sorted(d for _, b in groups.values() for d in b) == sorted(d for d in g.dataset_types if pre or not g.dataset_types[d].is_prerequisite) and
                  all(x.dimensions == k for k, (a, b) in groups.items() for x in (*a.values(), *b.values())), "wrong groups by dimensions", repr(groups))
        eng.check(set(g.get_all_dimensions(prerequisites=pre).names) == {d for k in groups for d in k.names}, "wrong set of all dimensions")
    eng.reach("resolved")
    return True


def make(uses):
    g = PipelineGraph()
    for t, u in uses.items():
        g.add_task(t, DynamicTestPipelineTask, connect(t, u))
    return g


def choose_def(eng, name, dims, scs, calibs=(False,)):
    return Def(eng.choice(f"{name}-dims", dims), eng.choice(f"{name}-sc", scs), eng.choice(f"{name}-calib", calibs))


def define(eng, n, kinds, dims, scs, calibs, registered, defers=(False,)):
    """Any definitions by n tasks and the repository."""
    uses = {}
    for k in range(n):
        kind = eng.choice(f"kind{k}", kinds)
        component = kind.endswith(".x")
        kind = kind.removesuffix(".x")
        init = kind.startswith("init")
        d = choose_def(eng, f"d{k}", ("",) if init else ("d",) if component else dims, ("C23SX", "C23SY", "C23SC") if component else scs,
                       (False,) if init or component else calibs)
        eng.assume(not (kind in ("out", "initout") and d.dims == "sky"))
        uses[f"t{k}"] = Use(kind, d, component, kind in ("in", "pre") and eng.choice(f"defer{k}", defers))
    if any(u.component for u in uses.values()):
        eng.assume(all(u.d.dims == "d" for u in uses.values()))
    known = choose_def(eng, "registered", [d for d in dims if d != "sky"], scs, calibs) if registered and eng.bool("is-registered") else None
    if any(u.component for u in uses.values()):
        eng.assume(known is None or known.dims == "d")
    g = make(uses)
    resolve(eng, g, uses, known, bool(eng.bool("by-registry")) if n < 3 else False)


def again(eng, first, uses_choices, known):
    """A graph that was resolved before, for another repository or for display only, or is part of another graph."""
    uses = {f"t{k}": eng.choice(f"use{k}", c) for k, c in enumerate(uses_choices)}
    a = eng.choice("before", known)
    b = eng.choice("now", known)
    g = make(uses)
    types = lambda d: {"D": d.dataset_type()} if d else {}  # noqa: E731
    kind, r = outcome(g.resolve, dimensions=U, dataset_types=types(a), visualization_only=bool(eng.bool("for-display")))
    if eng.bool("universe"):
        outcome(g.resolve, dimensions=U2, dataset_types={})
        eng.reach("universe")
    part = eng.choice("part", ("all", "select", "copy", "remove", "add", "nodes"))
    if part == "select":
        g = g.select("t0")
        uses = {"t0": uses["t0"]}
    elif part == "copy":
        g = g.copy()
    elif part == "remove":
        g.remove_tasks(["t0"])
        del uses["t0"]
    elif part == "add":
        uses["t9"] = Use("in", Def("d", "C23SB"))
        g.add_task("t9", DynamicTestPipelineTask, connect("t9", uses["t9"]))
    elif part == "nodes":
        h = PipelineGraph()
        h.add_task_nodes([g.tasks[t] for t in list(uses)[1:]], parent=g)
        g = h
        del uses["t0"]
    eng.reach(part)
    resolve(eng, g, uses, b, False)


def cases(tier):
    t = tier == "thorough"
    scs = ("C23SA", "C23SB", "C23SC")
    exc = ("resolved", "IncompatibleDatasetTypeError", "MissingDatasetTypeError")
    D = Def
    uses0 = (Use("out", D()), Use("in", D(), defer=True), Use("in", D("i")), Use("pre", D()))
    uses1 = (Use("in", D()), Use("in", D(sc="C23SB")), Use("in", D(sc="C23SX"), component=True), Use("pre", D()), Use("in", D("i")),
             Use("out", D(sc="C23SC")))
    known = (None, D(), D(sc="C23SB"), D("i"), D(calib=True))
    return [
        Case("two", define, dict(n=2, kinds=("out", "in", "pre"), dims=("d", "i"), scs=scs, calibs=(False, True) if t else (False,), registered=True,
                                 defers=(False, True) if t else (False,)),
             "2 tasks, 2 dimensions, 3 storage classes", (*exc, "ConnectionTypeConsistencyError", "DuplicateOutputError"),
             validate_every=300, time_cap=2500),
        Case("calib", define, dict(n=2, kinds=("out", "in", "pre"), dims=("d",), scs=scs[:2], calibs=(False, True), registered=True, defers=(False, True)),
             "2 tasks, calibrations, deferred", (*exc, "ConnectionTypeConsistencyError", "DuplicateOutputError"), validate_every=300, time_cap=2500),
        Case("components", define, dict(n=3 if t else 2, kinds=("out", "in", "in.x", "pre.x"), dims=("d",), scs=scs, calibs=(False,), registered=True),
             "2 (thorough 3) tasks, components", exc, validate_every=300, time_cap=2500),
        Case("skypix", define, dict(n=2, kinds=("out", "in", "pre"), dims=("h", "sky", "i"), scs=scs[:2], calibs=(False,), registered=True),
             "2 tasks, skypix placeholder", exc, validate_every=300, time_cap=2500),
        Case("three", define, dict(n=3, kinds=("out", "in"), dims=("d", "i"), scs=scs if t else scs[:2], calibs=(False,), registered=t,
                                   defers=(False, True)), "3 tasks", (*exc, "DuplicateOutputError"), validate_every=300, time_cap=2500),
        Case("init", define, dict(n=2, kinds=("initout", "initin", "in"), dims=("", "i"), scs=scs, calibs=(False,), registered=True),
             "2 tasks, init-inputs and outputs", exc, validate_every=300, time_cap=2500),
        Case("again", again, dict(first=None, uses_choices=(uses0, uses1) if not t else (uses0, uses1, uses1), known=known),
             "2 (thorough 3) tasks, resolved twice", ("resolved", "select", "remove", "copy", "add", "nodes"), validate_every=300, time_cap=2500),
    ]
