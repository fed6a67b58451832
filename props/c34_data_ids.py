"""C34: the quanta and edges predicted are exactly those the repository's data IDs call for."""

from __future__ import annotations

import contextlib
import types
import uuid

import astropy.table
import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import (
    CollectionType, DataCoordinate, DatasetRef, DimensionGroup, MissingCollectionError, MissingDatasetTypeError, Timespan)
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base._datasetQueryConstraints import DatasetQueryConstraintVariant as DQC
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.quantum_graph_builder import QuantumGraphBuilderError
from lsst.sphgeom import ConvexPolygon, LonLat, UnitVector3d

from symx.core import Stub, outcome
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = [
    "the butler is a stand-in that evaluates queries (join of dimensions, dataset searches, where, data-ID tables, find-first) over a small "
    "world of visits, detectors and patches, whose data-ID rows, datasets and validity ranges are symbolic; SQL itself is not encoded",
]
SC, U = te.SC, te.UNIVERSE
VD, V, P, I = ("instrument", "visit", "detector"), ("instrument", "visit"), ("skymap", "tract", "patch"), ("instrument",)
D = ("instrument", "detector")
ED = ("instrument", "exposure", "detector")


def polygon(lon, lat, size=0.5):
    return ConvexPolygon([UnitVector3d(LonLat.fromDegrees(lon + a * size, lat + b * size)) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))])


def make_task(name, dims, **conns):
    """A task class with the given connections; "temporal" and "spatial" name bounds connections."""
    bounds = {k: conns.pop(k, ()) for k in ("temporal", "spatial")}
    ns = dict(conns)
    ns["getTemporalBoundsConnections"] = lambda self: bounds["temporal"]
    ns["getSpatialBoundsConnections"] = lambda self: bounds["spatial"]
    ns["__module__"] = __name__
    cc = types.new_class(f"{name}Conn", (PipelineTaskConnections,), {"dimensions": dims}, lambda n: [n.__setitem__(*kv) for kv in ns.items()])
    cf = types.new_class(f"{name}Config", (PipelineTaskConfig,), {"pipelineConnections": cc}, lambda n: n.update(__module__=__name__))
    return type(name, (PipelineTask,), {"ConfigClass": cf, "_DefaultName": name, "__module__": __name__})


def inp(name, dims, **kw):
    return cT.Input(name=name, storageClass=SC, dimensions=dims, **kw)


def many(name, dims, **kw):
    return inp(name, dims, multiple=True, **kw)


def out(name, dims, **kw):
    return cT.Output(name=name, storageClass=SC, dimensions=dims, **kw)


def pre(name, dims, **kw):
    return cT.PrerequisiteInput(name=name, storageClass=SC, dimensions=dims, minimum=0, **kw)


def spread(dtype, registry, data_id, collections):
    """A lookup function: what it is asked and what it returns are part of the check."""
    return registry.lookup(dtype, data_id, collections)


PIPELINES = {
    "main": dict(
        t1=make_task("t1", VD, raw=inp("raw", VD), opt=inp("opt", V, deferGraphConstraint=True), cal=out("cal", VD)),
        t2=make_task("t2", V, cal=many("cal", VD), vis=out("vis", V)),
        t3=make_task("t3", P, cal=many("cal", VD), coadd=out("coadd", P)),
        t4=make_task("t4", I, vis=many("vis", V), e0=inp("e0", ()), tot=out("tot", I)),
    ),
    "flat": dict(
        t1=make_task("t1f", VD, raw=inp("raw", VD), opt=inp("opt", V, deferGraphConstraint=True), cal=out("cal", VD)),
        t2=make_task("t2f", D, cal=many("cal", VD), e0=inp("e0", ()), vis=out("vis", D)),
        t3=make_task("t3f", (), vis=many("vis", D), fin=out("fin", ())),
    ),
    "pre": dict(
        t1=make_task("t1p", ED, raw=inp("eraw", ED), vin=inp("vin", V), cal=out("ecal", ED), pd=pre("pd", D),
                     cb=pre("cb", D, isCalibration=True)),
        t2=make_task("t2p", ("instrument", "exposure"), cal=many("ecal", ED), pd=pre("pd", D, multiple=True), lk=pre("lk", D, multiple=True, lookupFunction=spread),
                     gl=pre("gl", I), vis=out("evis", ("instrument", "exposure"))),
    ),
    "pre-temporal": dict(
        t1=make_task("t1t", ED, raw=inp("eraw", ED), vin=inp("vin", V), cal=out("ecal", ED), pd=pre("pd", D),
                     cb=pre("cb", D, isCalibration=True), lk=pre("lk", D, multiple=True, lookupFunction=spread), temporal=("vin",)),
    ),
    "pre-spatial": dict(
        t1=make_task("t1s", VD, raw=inp("raw", VD), cal=out("cal", VD), rc=pre("rc", ("htm7",), multiple=True), pd=pre("pd", D)),
        t2=make_task("t2s", D, cal=many("cal", VD), vis=out("dvis", D), rc=pre("rc", ("htm7",), multiple=True), spatial=("cal",)),
        t3=make_task("t3s", V, cal=many("cal", VD), vis=out("vvis", V), rc=pre("rc", ("htm7",), multiple=True), spatial=("cal",)),
        t5=make_task("t5s", V, vis=inp("vvis", V), fan=out("fan", VD, multiple=True), rc=pre("rc", ("htm7",), multiple=True), spatial=("fan",)),
        t4=make_task("t4s", I, vis=many("dvis", D), tot=out("tot", I), rc=pre("rc", ("htm7",), multiple=True)),
    ),
    "healpix": dict(
        t1=make_task("t1h", ("healpix5",), coadd=many("coadd", P), h5=out("h5", ("healpix5",))),
        t2=make_task("t2h", ("healpix4",), h5=many("h5", ("healpix5",)), h4=out("h4", ("healpix4",))),
        t3=make_task("t3h", ("healpix3",), h4=many("h4", ("healpix4",)), h5=many("h5", ("healpix5",)), h3=out("h3", ("healpix3",))),
        t4=make_task("t4h", ("healpix5",), h3=inp("h3", ("healpix3",)), h5=inp("h5", ("healpix5",)), g5=out("g5", ("healpix5",))),
        t5=make_task("t5h", ("skymap", "tract"), g5=many("g5", ("healpix5",)), coadd=many("coadd", P), tot=out("htot", ("skymap", "tract"))),
    ),
    "cross": dict(
        t1=make_task("t1x", ("healpix5",), cal=many("ccal", V), h5=out("h5", ("healpix5",))),
        t2=make_task("t2x", ("htm5",), h5=many("h5", ("healpix5",)), m5=out("m5", ("htm5",))),
        t3=make_task("t3x", ("instrument", "visit", "htm5"), cal=inp("ccal", V), m5=inp("m5", ("htm5",)), vm=out("vm", ("instrument", "visit", "htm5"))),
    ),
    "scatter": dict(
        t1=make_task("t1c", ("healpix3",), coadd=many("coadd", P), h3=out("h3", ("healpix3",))),
        t2=make_task("t2c", ("healpix5",), h3=inp("h3", ("healpix3",)), h5=out("h5", ("healpix5",))),
        t3=make_task("t3c", ("skymap", "tract", "patch", "healpix5"), coadd=inp("coadd", P), h5=inp("h5", ("healpix5",)),
                     ph=out("ph", ("skymap", "tract", "patch", "healpix5"))),
    ),
    "band": dict(
        t1=make_task("t1b", P + ("healpix4",), coadd=inp("coadd", P), p4=out("p4", P + ("healpix4",))),
        t2=make_task("t2b", P + ("healpix4", "band"), p4=inp("p4", P + ("healpix4",)), bc=inp("bc", P + ("band",)), b4=out("b4", P + ("healpix4", "band"))),
        t3=make_task("t3b", ("healpix4", "band"), b4=many("b4", P + ("healpix4", "band")), b3=out("b3", ("healpix4", "band"))),
    ),
    "pixels": dict(
        t1=make_task("t1i", ("healpix4",), hin=many("hin", ("healpix5",)), h4=out("h4", ("healpix4",))),
        t2=make_task("t2i", ("healpix5",), h4=inp("h4", ("healpix4",)), hin=inp("hin", ("healpix5",)), h5=out("h5", ("healpix5",))),
        t3=make_task("t3i", (), h5=many("h5", ("healpix5",)), tot=out("itot", ())),
    ),
}
_graphs: dict = {}


def pipeline(name, data_id):
    key = name, data_id
    if key not in _graphs:
        g = PipelineGraph(universe=U, data_id={"instrument": "I"} if data_id else None)
        for label, cls in PIPELINES[name].items():
            cfg = cls.ConfigClass()
            cfg.saveLogOutput = False
            g.add_task(label, cls, cfg)
        g.resolve(dimensions=U, dataset_types={})
        _graphs[key] = g
    return _graphs[key]


TIMES = {("v", 1): (10, 50), ("v", 2): (60, 100), ("e", 1): (20, 53), ("e", 2): (55, 75)}


def span(kind, k):
    return Timespan(None, None, _nsec=TIMES[kind, k])


def rec(element, **kw):
    return U[element].RecordClass(**kw)


def records(row):
    """Dimension records of one full row of values."""
    r = {"instrument": rec("instrument", name=row["instrument"], visit_max=9, exposure_max=9, detector_max=9, class_name="x")}
    if "band" in row:
        r["band"] = rec("band", name=row["band"])
    if "visit" in row or "exposure" in row:
        r["band"] = rec("band", name="r")
        r["physical_filter"] = rec("physical_filter", instrument=row["instrument"], name="R", band="r")
        r["day_obs"] = rec("day_obs", instrument=row["instrument"], id=1)
        r["group"] = rec("group", instrument=row["instrument"], name="g")
    if "visit" in row:
        r["visit"] = rec("visit", instrument=row["instrument"], id=row["visit"], day_obs=1, physical_filter="R", name="v",
                         timespan=span("v", row["visit"]), region=polygon(20 * row["visit"] - 1, -1, 3.2))
    if "exposure" in row:
        r["exposure"] = rec("exposure", instrument=row["instrument"], id=row["exposure"], day_obs=1, physical_filter="R", group="g",
                            obs_id="x", timespan=span("e", row["exposure"]))
        r["visit_definition"] = rec("visit_definition", instrument=row["instrument"], exposure=row["exposure"], visit=row["exposure"])
    if "detector" in row:
        r["detector"] = rec("detector", instrument=row["instrument"], id=row["detector"], full_name=str(row["detector"]))
    if "visit" in row and "detector" in row:
        r["visit_detector_region"] = rec("visit_detector_region", instrument=row["instrument"], visit=row["visit"], detector=row["detector"],
                                         region=polygon(20 * row["visit"] + 3 * row["detector"], 0, 1.0))
    if "patch" in row:
        r["skymap"] = rec("skymap", name="S", hash=b"h", tract_max=9, patch_nx_max=9, patch_ny_max=9)
        r["tract"] = rec("tract", skymap="S", id=0, region=polygon(0, 0, 5))
        r["patch"] = rec("patch", skymap="S", tract=0, id=row["patch"], cell_x=0, cell_y=row["patch"], region=polygon(row["patch"], 0))
    return r


IMPLIED = {"band": "r", "physical_filter": "R", "day_obs": 1, "group": "g", "skymap": "S", "tract": 0}
_proj: dict = {}


def project(row, group):
    """The data ID of a row in some dimensions."""
    key = tuple(row.items()), group.names
    if key not in _proj:
        full = {**IMPLIED, **row}
        _proj[key] = DataCoordinate.from_full_values(group, tuple(full[k] for k in group.data_coordinate_keys))
    return _proj[key]


class World:
    """Rows of dimension values, datasets by (type, values) and collection; presence of each is symbolic."""

    def __init__(self, eng, graph, rows, free):
        self.eng, self.graph, self.all_rows, self.free = eng, graph, rows, free
        self.has, self.refs = {}, {}
        self.missing = set()

    def rows(self):
        return [r for i, r in enumerate(self.all_rows) if self._row(i)]

    def _row(self, i):
        if ("row", i) not in self.has:
            self.has["row", i] = bool(self.eng.bool(f"row{i}")) if self.free.get("rows", 0) > i else True
        return self.has["row", i]

    def dims(self, name):
        return self.graph.dataset_types[name].dimensions

    def where(self, name, values):
        """Collections that have a dataset."""
        key = name, values
        if key not in self.has:
            opts = self.free.get(name, ("in1",) if self.graph.producer_of(name) is None else ((),))
            self.has[key] = self.eng.choice(f"at_{name}_{'_'.join(map(str, values))}", opts)
        return self.has[key]

    def find(self, name, data_id, collections):
        at = self.where(name, tuple(data_id.required_values))
        for c in collections:
            if c in at:
                key = name, tuple(data_id.required_values), c
                if key not in self.refs:
                    self.refs[key] = DatasetRef(self.graph.dataset_types[name].dataset_type, data_id, run=c,
                                                id=uuid.uuid5(uuid.UUID(int=3), repr(key)))
                return self.refs[key]
        return None

    def all_ids(self, name):
        if name == "rc":
            return [DataCoordinate.from_required_values(U.conform(["htm7"]), (p,)) for p in self.shards]
        return list(dict.fromkeys(project(r, self.dims(name)) for r in self.all_rows))

    def valid(self, data_id, timespan):
        """Does the calibration of a detector overlap a (nsec) timespan?"""
        b, e = self.validity[data_id["detector"]]
        return bool(b < timespan[1]) and bool(timespan[0] < e)


def names(collections):
    return [collections] if isinstance(collections, str) else list(collections)


def type_name(t):
    return t if isinstance(t, str) else t.name


class Query(Stub):
    def __init__(self, world, parts=()):
        self.w, self.parts = world, tuple(parts)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _with(self, *part):
        return Query(self.w, self.parts + (part,))

    def join_dimensions(self, dimensions):
        return self._with("dims", U.conform(dimensions))

    def join_dataset_search(self, dataset_type, collections=None):
        if type_name(dataset_type) in self.w.missing:
            raise MissingDatasetTypeError(type_name(dataset_type))
        return self._with("search", type_name(dataset_type), names(collections))

    def join_data_coordinates(self, iterable):
        return self._with("ids", list(iterable))

    def join_data_coordinate_table(self, table):
        return self._with("table", [dict(zip(table.colnames, r)) for r in table])

    def where(self, *args, bind=None, **kw):
        q = self
        for a in args:
            if isinstance(a, str):
                if a:
                    q = q._with("where", a, dict(bind or {}))
            elif isinstance(a, DataCoordinate):
                q = q._with("match", dict(a.mapping))
            else:
                q = q._with("match", dict(a))
        return q._with("match", kw) if kw else q

    def _rows(self):
        w = self.w
        for row in w.rows():
            full = {**IMPLIED, **row}
            good = True
            for part in self.parts:
                kind = part[0]
                if kind == "match":
                    good = all(full.get(k) == v for k, v in part[1].items())
                elif kind == "where":
                    good = condition(part[1], part[2], full)
                elif kind == "table":
                    good = any(all(full[k] == v for k, v in r.items()) for r in part[1])
                elif kind == "search":
                    if part[1] == "rc":
                        continue
                    good = w.find(part[1], project(row, w.dims(part[1])), part[2]) is not None
                elif kind == "ids":
                    good = any(all(full.get(k, v) == v for k, v in d.mapping.items()) for d in part[1])
                if not good:
                    break
            if good:
                yield row

    def data_ids(self, dimensions):
        group = U.conform(dimensions)
        return list(dict.fromkeys(project(r, group) for r in self._rows()))

    def any(self, **kw):
        return next(self._rows(), None) is not None

    def explain_no_results(self, execute=True):
        return ["nothing"]

    def dimension_records(self, element):
        got = {}
        for r in self._rows():
            x = records({**r}).get(element)
            if x is not None:
                got[x.dataId] = x
        return list(got.values())

    def datasets(self, dataset_type, collections=None, find_first=True):
        name = type_name(dataset_type)
        if name in self.w.missing:
            raise MissingDatasetTypeError(name)
        refs = {}
        given = [[d for d in p[1]] for p in self.parts if p[0] == "ids"]
        own = self.w.dims(name)
        if len(self.parts) == 1 and given and all(own <= d.dimensions for d in given[0]):
            wanted = dict.fromkeys(d.subset(own) for d in given[0])
        else:
            wanted = dict.fromkeys(project(r, own) for r in self._rows())
        for did in wanted:
            ref = self.w.find(name, did, names(collections))
            if ref is not None:
                refs[ref.id] = ref
        return list(refs.values())

    def general(self, dimensions, *args, dataset_fields=None, find_first=False, **kw):
        return General(self, U.conform(dimensions))


class General(Stub):
    def __init__(self, query, dims):
        self.q, self.dims = query, dims

    def iter_tuples(self, *dataset_types):
        """Rows of the joined data IDs and the datasets that go with each (spatial and temporal joins included)."""
        (dt,) = dataset_types
        w = self.q.w
        name = dt.name
        (cols,) = [p[2] for p in self.q.parts if p[0] == "search" and p[1] == name]
        own = w.dims(name)
        seen = set()
        ids = [d for p in self.q.parts if p[0] == "ids" for d in p[1]]
        for d in ids:
            for other in w.all_ids(name):
                if any(k in d.dimensions.names and d[k] != v for k, v in other.required.items()):
                    continue
                if name == "cb" and not w.valid(other, time_of(d)):
                    continue
                if name == "rc" and not touches(region_of(d), other["htm7"]):
                    continue
                ref = w.find(name, other, cols)
                if ref is None:
                    continue
                full = d.union(ref.dataId if ref.dataId.hasFull() else d.subset(own))
                if (full, ref.id) not in seen:
                    seen.add((full, ref.id))
                    yield full, [ref], {}


def time_of(data_id):
    kind = "e" if "exposure" in data_id.dimensions.names else "v"
    return TIMES[kind, data_id["exposure" if kind == "e" else "visit"]]


def region_of(data_id):
    rs = records({k: v for k, v in data_id.mapping.items()})
    return (rs.get("visit_detector_region") or rs.get("visit") or rs["patch"]).region


HTM7 = U.skypix_dimensions["htm7"].pixelization


def pixels(region):
    return {i for b, e in HTM7.envelope(region) for i in range(b, e)}


def touches(region, pixel):
    return pixel in pixels(region)


def condition(text, bind, row):
    if text == "visit = :v":
        return row["visit"] == bind["v"]
    raise NotImplementedError(text)


class Butler(Stub):
    def __init__(self, world, out_exists=True):
        self.w, self.out_exists = world, out_exists
        self.dimensions = U
        self.run = None
        self.registry = self.collections = self
        self.asked = []

    defaults = ("in1",)

    def clone(self, collections=None):
        return self

    def caching_context(self):
        return contextlib.nullcontext()

    def getCollectionType(self, name):
        if name == "out" and not self.out_exists:
            raise MissingCollectionError(name)
        return CollectionType.RUN

    def query(self, expr=None, flatten_chains=False):
        if expr is None:
            return Query(self.w)
        got = names(expr)
        if "out" in got and not self.out_exists:
            raise MissingCollectionError("out")
        return got

    def get_dataset_type(self, name):
        raise MissingDatasetTypeError(name)

    getDatasetType = get_dataset_type

    def find_dataset(self, dataset_type, data_id=None, *, collections=None, timespan=None, **kw):
        name = type_name(dataset_type)
        if name in self.w.missing:
            raise MissingDatasetTypeError(name)
        if name not in self.w.graph.dataset_types:
            return None
        if data_id is None:
            data_id = DataCoordinate.make_empty(U)
        data_id = data_id.subset(self.w.dims(name))
        if name == "cb" and (timespan is None or not self.w.valid(data_id, timespan.nsec)):
            return None
        return self.w.find(name, data_id, names(collections))

    def query_datasets(self, dataset_type, collections=None, *, data_id=None, where="", bind=None, **kw):
        name = type_name(dataset_type)
        if name in self.w.missing:
            raise MissingDatasetTypeError(name)
        refs = []
        for other in self.w.all_ids(name):
            if data_id is not None and any(k in data_id.dimensions.names and data_id[k] != v for k, v in other.required.items()):
                continue
            if where and not all(other[t.split(" IN (:")[0]] in set(bind[t.split(" IN (:")[1].rstrip(")")]) for t in where.split(" AND ")):
                continue
            ref = self.w.find(name, other, names(collections))
            if ref is not None:
                refs.append(ref)
        return refs

    def lookup(self, dataset_type, data_id, collections):
        """Called by the lookup function of a connection."""
        self.asked.append((dataset_type.name, dict(data_id.mapping), tuple(collections)))
        found = [self.w.find(dataset_type.name, d, collections) for d in self.w.all_ids(dataset_type.name)]
        return found  # None entries are allowed


VIS_ROWS = [dict(instrument="I", visit=v, detector=d) for v in (1, 2) for d in (0, 1)]
MAIN_ROWS = [dict(r, patch=p) for p in (0, 1) for r in VIS_ROWS]
EXP_ROWS = [dict(instrument="I", visit=v, exposure=v, detector=d) for v in (1, 2) for d in (0, 1)]
J_ROW = dict(instrument="J", visit=1, detector=0, patch=0)


def keyed(row, group):
    return tuple(project(row, group).required_values)


def constraint_of(which):
    return {"all": DQC.ALL, "off": DQC.OFF}.get(which) or DQC.LIST(which)


def search(eng, pipe="main", rows=MAIN_ROWS, free=None, constraint=("all",), where=("",), tables=(None,), data_id=(False,), skip=((),),
           out_exists=(True,), missing=((),), inputs=(("in1", "in2"),)):
    """The skeleton of quanta, datasets and edges, and what is known of each dataset."""
    graph = pipeline(pipe, eng.choice("data_id", data_id))
    which = eng.choice("constraint", constraint)
    text = eng.choice("where", where)
    table = eng.choice("table", tables)
    skip_in = list(eng.choice("skip_in", skip))
    exists = eng.choice("run_exists", out_exists)
    cols = list(eng.choice("inputs", inputs))
    w = World(eng, graph, rows, free or {})
    w.missing = set(eng.choice("missing", missing))
    butler = Butler(w, exists)
    tabs = [] if table is None else [astropy.table.Table(rows=[(x,) for x in table[1]], names=[table[0]])]

    def build():
        b = AllDimensionsQuantumGraphBuilder(graph, butler, input_collections=cols, output_run="out", skip_existing_in=skip_in, where=text,
                                             bind={"v": 1} if text else None, dataset_query_constraint=constraint_of(which), data_id_tables=tabs)
        return b.process_subgraph(graph)

    kind, sk = outcome(build)
    overall = {n for n in graph.dataset_types if graph.producer_of(n) is None}
    usable = {n for n in overall if w.dims(n)}
    chosen = ({n for n in usable if n != "opt"} if which == "all" else set() if which == "off" else set(which) & usable)
    bad = which not in ("all", "off") and not chosen
    if kind == "exc":
        eng.check(isinstance(sk, QuantumGraphBuilderError) and (bad or bool(chosen & w.missing)), "building the graph failed", repr(sk))
        eng.reach("refused")
        return
    eng.check(not bad and not chosen & w.missing, "an impossible dataset constraint was accepted")
    kept = []
    for r in w.rows():
        full = {**IMPLIED, **r}
        if graph.data_id and full["instrument"] != "I":
            continue
        if text and full["visit"] != 1:
            continue
        if table is not None and full[table[0]] not in table[1]:
            continue
        if all(w.find(n, project(r, w.dims(n)), cols) is not None for n in sorted(chosen)):
            kept.append(r)
    if not kept:
        eng.check(not sk.has_any_quanta, "quanta without any data ID")
        eng.reach("empty")
        return
    eng.reach("found")
    if len(kept) < len(rows):
        eng.reach("some-rows")
    out_runs = ["out"] if exists else []
    live = [] if "out" in skip_in and not exists else skip_in
    for label, node in graph.tasks.items():
        group = node.dimensions
        want = {keyed(r, group) for r in kept}
        got = {k.data_id_values: k for k in sk.get_quanta(label)}
        eng.check(set(got) == want, "the quanta of a task are not the projections of the data IDs found", f"{label} {sorted(got)} {sorted(want)}")
        for values, key in got.items():
            eng.check(tuple(sk.get_data_id(key).required_values) == values, "a quantum has the data ID of another")
            eng.check(sk.get_data_id(key).hasRecords(), "a quantum's data ID has no dimension records")
            mine = [r for r in kept if keyed(r, group) == values]
            for what, edges, it in (("inputs", node.inputs, sk.iter_inputs_of), ("outputs", None, sk.iter_outputs_of)):
                types = ({e.parent_dataset_type_name for e in edges.values()} if edges is not None
                         else {e.parent_dataset_type_name for e in node.iter_all_outputs()})
                want_d = {(n, keyed(r, w.dims(n))) for n in types for r in mine}
                got_l = [(k.parent_dataset_type_name, k.data_id_values) for k in it(key)]
                eng.check(set(got_l) == want_d and len(got_l) == len(set(got_l)),
                          f"the {what} of a quantum are not the datasets its data IDs call for", f"{label}{values}: {got_l} {sorted(want_d)}")
                for k in it(key):
                    n = k.parent_dataset_type_name
                    did = project(next(r for r in mine if keyed(r, w.dims(n)) == k.data_id_values), w.dims(n))
                    eng.check(sk.get_data_id(k) == did, "a dataset has the data ID of another")
                    ref = sk.get_dataset_ref(k)
                    if n in overall:
                        exp = None if n in w.missing else w.find(n, did, cols)
                        eng.check((ref and ref.id) == (exp and exp.id), "an overall input is not the first one in the input collections",
                                  f"{k} {ref} {exp}")
                        continue
                    if n in w.missing:
                        exp_skip = exp_way = None
                    else:
                        exp_skip = w.find(n, did, live)
                        exp_way = w.find(n, did, out_runs)
                    s, t = sk.get_output_for_skip(k), sk.get_output_in_the_way(k)
                    eng.check((s and s.id) == (exp_skip and exp_skip.id), "existing output that allows skipping is wrong", f"{k} {s} {exp_skip}")
                    eng.check((t and t.id) == (exp_way and exp_way.id), "existing output in the way is wrong", f"{k} {t} {exp_way}")
    used = {}
    for k in sk:
        n = getattr(k, "parent_dataset_type_name", None)
        if n is not None and n in graph.dataset_types:
            used.setdefault(n, set()).add(k.data_id_values)
    for n, vals in used.items():
        eng.check(vals == {keyed(r, w.dims(n)) for r in kept}, "a dataset that no data ID calls for", f"{n} {vals}")


def prerequisites(eng, pipe, rows, free=None, symbolic_times=False, n_shards=0, skipping=False):
    """The inputs of the quanta of the finished graph, prerequisites included."""
    graph = pipeline(pipe, False)
    w = World(eng, graph, rows, free or {})
    w.validity = {}
    for d in (0, 1):
        if symbolic_times and d == 0:
            b, e = eng.int("begin", 0, 120), eng.int("end", 0, 120)
            eng.assume(b < e)
        else:
            b, e = 0, 200
        w.validity[d] = (b, e)
    w.shards = SHARDS[:n_shards]
    w.missing = set(eng.choice("missing", ((), ("pd",)))) if "missing" in w.free else set()
    butler = Butler(w)
    comp = AllDimensionsQuantumGraphBuilder(
        graph, butler, input_collections=["in1", "in2"], output_run="out", skip_existing_in=["old"] if skipping else []).finish(
        attach_datastore_records=False)
    kept = []
    for r in w.rows():
        if all(w.find(n, project(r, w.dims(n)), ["in1", "in2"]) is not None for n in ("raw", "eraw", "vin") if n in graph.dataset_types):
            kept.append(r)
    by = {}
    for m in comp.quantum_datasets.values():
        by.setdefault(m.task_label, {})[req(m.data_coordinate, graph.tasks[m.task_label].dimensions)] = m
    skipped = set()
    if skipping:
        for label, node in graph.tasks.items():
            n = node.metadata_output.parent_dataset_type_name
            skipped |= {(label, keyed(r, node.dimensions)) for r in kept if w.find(n, project(r, w.dims(n)), ["old"]) is not None}
    produced = set()  # outputs there will be: those of quanta kept, and those found of quanta skipped
    for label, node in graph.tasks.items():
        want = {keyed(r, node.dimensions) for r in kept}
        outs = {e.parent_dataset_type_name for e in node.iter_all_outputs()}
        for v in want:
            mine = [r for r in kept if keyed(r, node.dimensions) == v]
            dss = {(n, keyed(r, w.dims(n))): project(r, w.dims(n)) for n in outs for r in mine}
            if (label, v) in skipped:
                produced |= {k for k, did in dss.items() if w.find(k[0], did, ["old"]) is not None}
                continue
            regular = {(e.parent_dataset_type_name, keyed(r, w.dims(e.parent_dataset_type_name)))
                       for e in node.inputs.values() for r in mine}
            regular = {x for x in regular if graph.producer_of(x[0]) is None or x in produced}
            if not all(any(x[0] == e.parent_dataset_type_name for x in regular) for e in node.inputs.values()):
                eng.check(v not in by.get(label, {}), "a quantum without its inputs was kept")
                continue
            eng.check(v in by.get(label, {}), "a quantum is missing", f"{label}{v}")
            produced |= set(dss)
            m = by[label][v]
            expect = set(regular)
            for edge in node.prerequisite_inputs.values():
                n = edge.parent_dataset_type_name
                if n in w.missing:
                    continue
                for did in w.all_ids(n):
                    ok = all(k not in node.dimensions.names or project(mine[0], node.dimensions)[k] == x for k, x in did.required.items())
                    if n == "lk":
                        ok = True
                    elif n == "cb":
                        times = [TIMES["e", mine[0]["exposure"]]]
                        if pipe == "pre-temporal":
                            times.append(TIMES["v", mine[0]["visit"]])
                        ok = ok and w.valid(did, (min(t[0] for t in times), max(t[1] for t in times)))
                    elif n == "rc":
                        ok = did["htm7"] in area(label, mine, produced, regular)
                    if ok and w.find(n, did, ["in1", "in2"]) is not None:
                        expect.add((n, tuple(did.required_values)))
                        eng.reach(f"found-{n}")
                    elif not ok:
                        eng.reach(f"not-{n}")
            got = {(d.dataset_type_name, req(d.data_coordinate, w.dims(d.dataset_type_name))): d for ds in m.inputs.values() for d in ds}
            eng.check(set(got) == expect, "the inputs of a quantum, prerequisites included, are not those its data ID and bounds call for",
                      f"{label}{v}: {sorted(got)} {sorted(expect)}")
            eng.check(sum(len(ds) for ds in m.inputs.values()) == len(got), "an input is listed twice")
            for (n, vals), d in got.items():
                if graph.producer_of(n) is None:
                    at = next(c for c in ("in1", "in2") if c in w.has[n, vals])
                    eng.check(d.run == at and d.dataset_id == w.refs[n, vals, at].id, "an input is not the first one in the input collections")
        eng.check(set(by.get(label, {})) <= want, "a quantum nobody asked for", label)
        eng.check(not any((label, v) in skipped for v in by.get(label, {})), "a finished quantum is to be run again")
    if kept:
        eng.reach("found")
    if butler.asked:
        eng.check(all(a[0] == "lk" and a[2] == ("in1", "in2") and set(a[1]) >= {"instrument", "exposure"} for a in butler.asked),
                  "a lookup function is asked for something else", str(butler.asked))


def req(values, group):
    return tuple(DataCoordinate.from_full_values(group, tuple(values)).required_values)


def area(label, mine, produced, regular):
    """Sky pixels a quantum of the "pre-spatial" pipeline is entitled to."""
    regions = []
    if label == "t1":
        regions = [region_of(project(mine[0], U.conform(VD)))]
    elif label == "t4":
        return set(SHARDS)  # no bounds at all: the whole sky
    else:
        if label in ("t3", "t5"):
            regions = [region_of(project(mine[0], U.conform(V)))]
        if label == "t5":
            regions += [region_of(project(r, U.conform(VD))) for r in mine]
        for n, vals in regular:
            if n == "cal":
                regions.append(region_of(project(dict(zip(("instrument", "detector", "visit"), vals)), U.conform(VD))))
    return set().union(*(pixels(r) for r in regions))


def _shards():
    cells = {(v, d): pixels(region_of(project(dict(instrument="I", visit=v, detector=d), U.conform(VD)))) for v in (1, 2) for d in (0, 1)}
    pick = [min(cells[1, 0] - cells[1, 1]), min(cells[1, 1] - cells[1, 0]), min(cells[2, 0] - cells[2, 1])]
    visit = pixels(region_of(project(dict(instrument="I", visit=1, detector=0), U.conform(V))))
    pick.append(min(visit - cells[1, 0] - cells[1, 1]))
    pick.append(min(set(pixels(polygon(100, 30)))))
    return pick


SHARDS = _shards()


@contextlib.contextmanager
def hashing(order):
    """Sets of dimension groups iterate in an order of our choice."""
    step, off = order
    own = DimensionGroup.__hash__

    def rank(self):
        i = _ranks.setdefault(tuple(self.names), len(_ranks))
        return (i * step + off) % 127

    DimensionGroup.__hash__ = rank
    try:
        yield
    finally:
        DimensionGroup.__hash__ = own


_ranks: dict = {}
_cover: dict = {}


def cover(dim, values):
    """Pixels of one skypix dimension that a region (or pixel) may touch: (surely, possibly)."""
    (what, value), = values.items()
    key = dim, what, value
    if key not in _cover:
        to = U.skypix_dimensions[dim]
        if what in U.skypix_dimensions.names:
            frm = U.skypix_dimensions[what]
            if frm.system == to.system:
                k = 4 ** abs(frm.level - to.level)
                got = set(range(value * k, value * k + k)) if to.level > frm.level else {value // k}
                _cover[key] = got, got
            else:
                may = {i for b, e in to.pixelization.envelope(frm.pixelization.pixel(value)) for i in range(b, e)}
                back = {x for x in may if any(b <= value < e for b, e in frm.pixelization.envelope(to.pixelization.pixel(x)))}
                _cover[key] = back, may
        else:
            region = {"patch": lambda: polygon(value, 0), "tract": lambda: polygon(0, 0, 5), "visit": lambda: polygon(20 * value - 1, -1, 3.2)}[what]()
            got = {i for b, e in to.pixelization.envelope(region) for i in range(b, e)}
            _cover[key] = got, got
    return _cover[key]


def spot(values, without=()):
    """What says where a data ID is on the sky: its skypix dimensions and its finest other region."""
    sky = {k: v for k, v in values.items() if k in U.skypix_dimensions.names and k not in without}
    for k in ("patch", "tract", "visit"):
        if k in values and k not in without:
            return {**sky, k: values[k]}
    return sky


def related(a, b):
    """(surely, possibly): do two data IDs agree and overlap?"""
    if any(k in b and b[k] != v for k, v in a.items()):
        return False, False
    sure = may = True
    pa, pb = spot(a), spot(b)
    for ka, va in pa.items():
        for kb, vb in pb.items():
            if ka == kb or ka in b or kb in a:
                continue
            skya, skyb = ka in U.skypix_dimensions.names, kb in U.skypix_dimensions.names
            if skya:
                (s1, m1) = cover(ka, {kb: vb})
                s, m = va in s1, va in m1
                if skyb:
                    s2, m2 = cover(kb, {ka: va})
                    s, m = s and vb in s2, m or vb in m2
            elif skyb:
                (s1, m1) = cover(kb, {ka: va})
                s, m = vb in s1, vb in m1
            else:
                continue
            sure, may = sure and s, may and m
    return sure, may


def sky(eng, pipe, rows, source, orders, free=None, table=None):
    """Graphs over sky pixels, whatever order sets iterate in."""
    graph = pipeline(pipe, False)
    order = eng.choice("order", orders)
    w = World(eng, graph, rows, free or {})
    w.rows()
    built = []
    for o in (orders[0], order):
        with hashing(o):
            more = {} if table is None else dict(data_id_tables=[astropy.table.Table(rows=[(x,) for x in table[1]], names=[table[0]])],
                                                 dataset_query_constraint=DQC.OFF)
            comp = AllDimensionsQuantumGraphBuilder(graph, Butler(w), input_collections=["in1"], output_run="out", **more).finish(
                attach_datastore_records=False)
        built.append(sorted(repr((m.task_label, m.data_coordinate, sorted((d.dataset_type_name, d.data_coordinate) for ds in m.inputs.values() for d in ds)))
                            for m in comp.quantum_datasets.values()))
    eng.check(built[0] == built[1], "the graph depends on the order in which sets are iterated", f"{len(built[0])} and {len(built[1])} quanta")
    overall = sorted(n for n in graph.dataset_types if graph.producer_of(n) is None)
    kept = [r for r in w.rows() if all(w.find(n, project(r, w.dims(n)), ["in1"]) is not None for n in overall if w.dims(n))]

    def vals(values, group):
        return dict(DataCoordinate.from_full_values(group, tuple(values)).mapping)

    kept = [r for r in kept if table is None or {**IMPLIED, **r}[table[0]] in table[1]]
    have = {n: [dict(d.mapping) for d in dict.fromkeys(project(r, w.dims(n)) for r in kept)] for n in overall}
    total = 0
    for label, node in graph.tasks.items():
        quanta = [(vals(m.data_coordinate, node.dimensions), m) for m in comp.quantum_datasets.values() if m.task_label == label]
        keys = [tuple(v.items()) for v, _ in quanta]
        eng.check(len(set(keys)) == len(keys), "a quantum appears twice", label)
        total += len(quanta)
        ins = {e.parent_dataset_type_name for e in node.inputs.values()}
        made = {}
        for v, m in quanta:
            inner = spot(v)
            if len(inner) > 1:
                (a, x), (b, y) = list(inner.items())[:2]
                eng.check(related({a: x}, {b: y})[1], "a quantum combines places that do not overlap", f"{label}{v}")
            got = {}
            for ds in m.inputs.values():
                for d in ds:
                    got.setdefault(d.dataset_type_name, []).append(tuple(vals(d.data_coordinate, w.dims(d.dataset_type_name)).items()))
            for n in ins:
                avail = [(tuple(x.items()), related(v, x)) for x in have[n]]
                must, may = {x for x, (s, _) in avail if s}, {x for x, (_, p) in avail if p}
                g = set(got.get(n, ()))
                eng.check(must <= g <= may and len(g) == len(got.get(n, ())) and g, "the inputs of a quantum are not the datasets it overlaps",
                          f"{label}{v} {n}: {sorted(g)} {sorted(must)}")
            for ds in m.outputs.values():
                for d in ds:
                    x = vals(d.data_coordinate, w.dims(d.dataset_type_name))
                    eng.check(all(v[k] == y for k, y in x.items()), "an output of a quantum is somewhere else", f"{label}{v} {x}")
                    made.setdefault(d.dataset_type_name, []).append(x)
        # every place in a row that was found, with all inputs available, has its quantum
        for r in kept:
            full = {**IMPLIED, **r}
            want = [{k: full[k] for k in node.dimensions.names if k in full}]
            for k in node.dimensions.names:
                if k not in full:
                    want = [dict(x, **{k: p}) for x in want for p in cover(k, {source: full[source]})[0]]
            for v in want:
                if all(any(related(v, x)[0] for x in have[n]) for n in ins):
                    eng.check(any(v == q for q, _ in quanta), "a quantum is missing where there is work to do", f"{label}{v}")
        have.update(made)
        for e in node.iter_all_outputs():
            have.setdefault(e.parent_dataset_type_name, [])
    if kept and total:
        eng.reach("found")
    if not kept:
        eng.check(total == 0, "quanta without any data ID")
        eng.reach("empty")


ORDERS = tuple((step, off) for step in (1, 126, 5, 50) for off in (0, 31, 77))


def cases(tier):
    big = 200.0 if tier == "quick" else 3000.0
    some, either = ((), ("in1",)), ((), ("in1",), ("in2",), ("in1", "in2"))
    at = ((), ("old",), ("out",), ("old", "out"))
    few = MAIN_ROWS[:1] + MAIN_ROWS[5:6]
    out = [
        Case("rows", search, dict(free={"rows": 8}), "which of 8 (visit, detector, patch) rows the repository has",
             ("found", "some-rows", "empty"), time_cap=big),
        Case("constraint", search, dict(free={"raw": some, "opt": some},
                                        constraint=("all", "off", ("raw",), ("opt",), ("cal",), ("raw", "opt"), ("raw", "nope"))),
             "which inputs exist, dataset constraint", ("found", "some-rows", "empty", "refused"), time_cap=big),
        Case("where", search, dict(rows=MAIN_ROWS[:6] + [J_ROW], free={"rows": 4}, where=("", "visit = :v"), data_id=(False, True),
                                   tables=(None, ("visit", (2,)), ("patch", (0,)), ("instrument", ("I",)), ("detector", (0, 1)))),
             "rows, where expression, pipeline data ID, data-ID tables", ("found", "some-rows", "empty"), time_cap=big),
        Case("inputs", search, dict(rows=MAIN_ROWS[1:3], free={"raw": either, "opt": either, "e0": either[:3]}, constraint=("all", "off"),
                                    inputs=(("in1", "in2"), ("in2", "in1"), ("in2",))),
             "where the overall inputs are, input collections", ("found", "some-rows", "empty"), time_cap=big),
        Case("existing", search, dict(rows=few, free={"cal": at, "coadd": at}, skip=((), ("old",), ("out",), ("old", "out"), ("out", "old")),
                                      out_exists=(False, True)),
             "where existing outputs are, collections to skip from", ("found",), time_cap=big),
        Case("flat", search, dict(pipe="flat", rows=VIS_ROWS, free={"rows": 4, "e0": either, "vis": at[:3], "fin": at[:3]},
                                  skip=((), ("old",), ("out", "old"))),
             "an empty-dimension task; rows, existing outputs", ("found", "some-rows", "empty"), time_cap=big),
        Case("unregistered", search, dict(rows=few, free={"rows": 2, "cal": at[:2]}, constraint=("all", "off", ("opt",)), skip=((), ("old",)),
                                          missing=((), ("raw",), ("opt",), ("cal",), ("raw", "opt"), ("vis", "coadd"))),
             "dataset types the repository does not know", ("found", "refused"), time_cap=big),
        Case("prerequisites", prerequisites, dict(pipe="pre", rows=EXP_ROWS[:3], free={"pd": either, "lk": either[:3], "gl": some, "missing": 1}),
             "which prerequisites exist and where", ("found", "found-pd", "found-lk", "found-gl", "found-cb"), time_cap=big),
        Case("calibration", prerequisites, dict(pipe="pre", rows=EXP_ROWS, free={"cb": either[:3]}, symbolic_times=True),
             "validity range of a calibration", ("found", "found-cb", "not-cb"), time_cap=big),
        Case("calibration-bounds", prerequisites, dict(pipe="pre-temporal", rows=EXP_ROWS, free={"cb": either[:3], "rows": 2}, symbolic_times=True),
             "validity range of a calibration, temporal bounds from a connection", ("found", "found-cb", "not-cb"), time_cap=big),
        Case("sky", prerequisites, dict(pipe="pre-spatial", rows=VIS_ROWS, free={"rc": some, "rows": 3}, n_shards=5),
             "which sky pixels have reference data, which rows there are", ("found", "found-rc", "not-rc"), time_cap=big),
        Case("skipped", prerequisites, dict(pipe="pre", rows=EXP_ROWS[:3], free={"pd": some, "t1_metadata": at[:2], "ecal": at[:2],
                                                                        "t2_metadata": at[:2], "t1_config": at[1:2], "t2_config": at[1:2]},
                                            skipping=True),
             "finished quanta are skipped; prerequisites of the others", ("found", "found-pd"), time_cap=big),
    ]
    n = ORDERS if tier == "quick" else tuple((a, b) for a in range(1, 127, 7) for b in range(0, 127, 11))
    patches = [dict(instrument="I", patch=p) for p in (0, 2)]
    pixels = [dict(instrument="I", healpix5=p) for p in (100, 101, 115)]
    out.append(Case("sky-table", sky, dict(pipe="pixels", rows=pixels, source="healpix5", orders=n[:2], free={"rows": 3, "hin": some},
                                           table=("healpix5", (100, 115))),
                    "which rows and inputs there are; pixels from a table", ("found", "empty"), time_cap=big))
    for name, rows, source in (
        ("healpix", patches, "patch"), ("scatter", patches, "patch"), ("band", [dict(instrument="I", patch=p, band=b) for p, b in ((0, "r"), (0, "i"), (2, "i"))], "patch"),
        ("cross", [dict(instrument="I", visit=v) for v in (1, 2)], "visit"),
        ("pixels", pixels, "healpix5"),
    ):
        out.append(Case(f"sky-{name}", sky, dict(pipe=name, rows=rows, source=source, orders=n, free={"rows": 3}),
                        f"which rows there are; {len(n)} iteration orders of sets of dimensions", ("found", "empty"), time_cap=big))
    return out
