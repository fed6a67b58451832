"""C32: initialising an output run: configs, package versions and init-outputs."""

from __future__ import annotations

import copy
import datetime

import lsst.pipe.base.connectionTypes as cT
from lsst.daf.butler import Butler, DataCoordinate, DatasetRef, DatasetType, LimitedButler
from lsst.daf.butler.registry import ConflictingDefinitionError, MissingDatasetTypeError
from lsst.pex.config import Field
from lsst.pipe.base import PipelineTask, PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base import automatic_connection_constants as acc
from lsst.pipe.base import separable_pipeline_executor as spe
from lsst.pipe.base.pipeline_graph import PipelineGraph
from lsst.pipe.base.quantum_graph import (PredictedInitQuantaModel, PredictedQuantumDatasetsModel,
                                          PredictedQuantumGraphComponents)
from lsst.pipe.base.quantum_graph._common import HeaderModel
from lsst.utils.packages import Packages

from symx.core import Stub, outcome
from symx.runner import Case

from . import _qg_env as e

ASSUMPTIONS = [
    "three tasks: p makes an init dataset that q and r read; q and r also read an external one; q makes another; a "
    "fourth dataset is made by q and read by r only",
    "configs differ in one integer field; package versions are any integers (the versions of the system are a stand-in)",
    "the butler is a stand-in that keeps copies of what is put and hands out copies",
]

SC = "StructuredDataDict"
RUN, INRUN = "out/run", "in/run"
SEEN = []
MUTATE = {}


class ConnP(PipelineTaskConnections, dimensions=("instrument",)):
    s = cT.InitOutput(name="s_p", storageClass=SC)
    raw = cT.Input(name="raw", storageClass=SC, dimensions=("instrument",))
    o = cT.Output(name="o_p", storageClass=SC, dimensions=("instrument",))


class ConnQ(PipelineTaskConnections, dimensions=("instrument",)):
    s_in = cT.InitInput(name="s_p", storageClass=SC)
    ext = cT.InitInput(name="ext", storageClass=SC)
    s = cT.InitOutput(name="s_q", storageClass=SC)
    raw = cT.Input(name="o_p", storageClass=SC, dimensions=("instrument",))
    o = cT.Output(name="o_q", storageClass=SC, dimensions=("instrument",))


class ConnR(PipelineTaskConnections, dimensions=("instrument",)):
    s_in = cT.InitInput(name="s_p", storageClass=SC)
    ext = cT.InitInput(name="ext", storageClass=SC)
    sq_in = cT.InitInput(name="s_q", storageClass=SC)
    raw = cT.Input(name="o_q", storageClass=SC, dimensions=("instrument",))
    opt = cT.Input(name="opt", storageClass=SC, dimensions=("instrument",), minimum=0)
    o = cT.Output(name="o_r", storageClass=SC, dimensions=("instrument",))


def _config(conn):
    class Cfg(PipelineTaskConfig, pipelineConnections=conn):
        x = Field[int](doc="x", default=0)
    return Cfg


CfgP, CfgQ, CfgR = _config(ConnP), _config(ConnQ), _config(ConnR)


class Base(PipelineTask):
    def __init__(self, *, initInputs=None, **kwargs):
        super().__init__(**kwargs)
        label = self._DefaultName
        SEEN.append((label, copy.deepcopy(dict(initInputs or {}))))
        if MUTATE.get(label):
            for v in (initInputs or {}).values():
                v["changed-by"] = label
        if label != "r":
            self.s = {"from": label}


class TaskP(Base):
    ConfigClass = CfgP
    _DefaultName = "p"


class TaskQ(Base):
    ConfigClass = CfgQ
    _DefaultName = "q"


class TaskR(Base):
    ConfigClass = CfgR
    _DefaultName = "r"


LABELS = ("p", "q", "r")
INITS = {"p": "s_p", "q": "s_q"}


def pipeline():
    g = PipelineGraph(universe=e.UNIVERSE)
    for label, cls in zip(LABELS, (TaskP, TaskQ, TaskR)):
        g.add_task(label, cls, cls.ConfigClass())
    g.resolve(dimensions=e.UNIVERSE, dataset_types={})
    return g


PIPELINE = pipeline()
EMPTY = DataCoordinate.make_empty(e.UNIVERSE)


def rid(name, run):
    return e.uid(f"{name}@{run}")


def predicted(tasks):
    """Quantum graph in which only some tasks have (init) quanta."""
    def ds(name, run=RUN, coordinate=()):
        d = e.ds(name, coordinate, run)
        d.dataset_id = rid(name, run)
        return d

    init = [PredictedQuantumDatasetsModel(quantum_id=e.uid("init"), task_label="", outputs={
        acc.PACKAGES_INIT_OUTPUT_NAME: [ds("packages")]})]
    quanta = []
    ins = {"p": {}, "q": {"s_in": ("p", "s_p"), "ext": (None, "ext")},
           "r": {"s_in": ("p", "s_p"), "ext": (None, "ext"), "sq_in": ("q", "s_q")}}
    for label in tasks:
        init.append(PredictedQuantumDatasetsModel(
            quantum_id=e.uid(f"init-{label}"), task_label=label,
            inputs={k: [ds(n, RUN if t in tasks else INRUN)] for k, (t, n) in ins[label].items()},
            outputs={acc.CONFIG_INIT_OUTPUT_CONNECTION_NAME: [ds(f"{label}_config")],
                     **({"s": [ds(INITS[label])]} if label in INITS else {})}))
        c = ("I",)
        src = {"p": "raw", "q": "o_p", "r": "o_q"}[label]
        quanta.append(PredictedQuantumDatasetsModel(
            quantum_id=e.uid(f"{label}0"), task_label=label, data_coordinate=list(c),
            inputs={"raw": [ds(src, RUN if src[-1] in tasks and src != "raw" else INRUN, c)]},
            outputs={"o": [ds(f"o_{label}", RUN, c)],
                     acc.METADATA_OUTPUT_CONNECTION_NAME: [ds(f"{label}_metadata", RUN, c)],
                     acc.LOG_OUTPUT_CONNECTION_NAME: [ds(f"{label}_log", RUN, c)]}))
    header = HeaderModel(inputs=[INRUN], output="out", output_run=RUN, user="u", command="c",
                         timestamp=datetime.datetime(2026, 1, 1), provenance_dataset_id=e.uid("prov"))
    c = PredictedQuantumGraphComponents(header=header, pipeline_graph=PIPELINE)
    c.init_quanta = PredictedInitQuantaModel(root=init)
    c.quantum_datasets = {q.quantum_id: q for q in quanta}
    c.dimension_data = e.dimension_data()
    c.set_thin_graph()
    c.set_header_counts()
    return c.assemble()


def clone(obj):
    if isinstance(obj, PipelineTaskConfig):
        new = type(obj)()
        new.x = obj.x
        return new
    if isinstance(obj, Packages):
        return Packages(dict(obj))
    return copy.deepcopy(obj)


class MemButler(Stub):
    """Butler stand-in: datasets with copies of their contents, by ID and by (name, run)."""

    def __init__(self):
        self.content = {}  # (name, run) -> (ref id, object)
        self.puts = []
        self.pruned = []
        self.n_put = 0
        self.crash_at = None
        self.registered = []
        self.known = {}

    dimensions = e.UNIVERSE
    run = RUN

    def preset(self, name, run, obj):
        self.content[name, run] = (rid(name, run), clone(obj))

    def _key(self, what, collections=None):
        if isinstance(what, DatasetRef):
            name = what.datasetType.nameAndComponent()[0]
            if self.content.get((name, what.run), (None,))[0] == what.id:
                return name, what.run
            return None
        name = what if isinstance(what, str) else what.name
        for run in ((collections,) if isinstance(collections, str) else (RUN, INRUN)):
            if (name, run) in self.content:
                return name, run
        return None

    def stored(self, ref):
        return self._key(ref) is not None

    def stored_many(self, refs):
        return {r: self.stored(r) for r in refs}

    exists = stored

    def find_dataset(self, dataset_type, data_id=None, *, collections=None, **kw):
        key = self._key(dataset_type, collections)
        if key is None:
            return None
        dt = dataset_type if isinstance(dataset_type, DatasetType) else DatasetType(
            key[0], EMPTY.dimensions, "Config" if key[0].endswith("_config") else SC)
        return DatasetRef(dt, EMPTY, run=key[1], id=self.content[key][0])

    def get(self, what, dataId=None, *, collections=None, **kw):
        key = self._key(what, collections)
        if key is None:
            raise FileNotFoundError(str(what))
        return clone(self.content[key][1])

    def put(self, obj, what, dataId=None, *, run=None, **kw):
        self.n_put += 1
        if self.crash_at is not None and self.n_put == self.crash_at:
            raise OSError("disk full")
        if isinstance(what, DatasetRef):
            key, i = (what.datasetType.name, what.run), what.id
        else:
            key = (what if isinstance(what, str) else what.name), run or RUN
            i = rid(key[0], key[1])
        if key in self.content:
            raise ConflictingDefinitionError(f"{key} exists")
        self.content[key] = (i, clone(obj))
        self.puts.append(key)

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        if purge and not (disassociate and unstore) or not purge and disassociate:
            raise TypeError("this combination of flags is refused by butlers")
        for r in refs:
            key = self._key(r)
            assert key is not None
            del self.content[key]
            self.pruned.append(key)

    class _Registry(Stub):
        def __init__(self, outer):
            self.outer = outer

        def registerDatasetType(self, dataset_type):
            self.outer.registered.append(dataset_type)
            self.outer.known[dataset_type.name] = dataset_type
            return True

        def getDatasetType(self, name):
            try:
                return self.outer.known[name]
            except KeyError:
                raise MissingDatasetTypeError(name) from None

        def refresh(self):
            pass

    @property
    def registry(self):
        return self._Registry(self)

    class collections(Stub):
        defaults = (INRUN,)


LimitedButler.register(MemButler)
Butler.register(MemButler)


def system(eng, n=2):
    """The package versions of this process: symbolic numbers."""
    now = Packages({f"k{i}": eng.int(f"now{i}") for i in range(n)})
    old = Packages.__dict__["fromSystem"]
    Packages.fromSystem = classmethod(lambda cls, include_all=False: Packages(dict(now)))
    return now, lambda: setattr(Packages, "fromSystem", old)


def preset_outputs(eng, butler, tasks, run, tag, now, what):
    """Any of the datasets of these tasks may exist already, with any contents."""
    bad_config = bad_version = False
    exists = set()
    for label in tasks if what != "versions" else ():
        if eng.bool(f"{tag}cfg{label}"):
            cfg = PIPELINE.tasks[label].config.__class__()
            cfg.x = eng.choice(f"{tag}x{label}", (0, 1))
            bad_config |= cfg.x != 0
            butler.preset(f"{label}_config", run, cfg)
            exists.add(f"{label}_config")
        if label in INITS and eng.bool(f"{tag}s{label}"):
            butler.preset(INITS[label], run, {"from": label, "run": run})
            exists.add(INITS[label])
    if eng.bool(f"{tag}pk"):
        old = Packages()
        for i in range(3) if what != "datasets" else ():  # k2 is a package this process does not have
            if eng.bool(f"{tag}has{i}"):
                old[f"k{i}"] = eng.int(f"{tag}ver{i}")
        butler.preset("packages", run, old)
        exists.add("packages")
        bad_version = any([bool(old[k] != now[k]) for k in old.keys() & now.keys()])
    return exists, bad_config, bad_version


def names(tasks):
    return {"packages", *(f"{t}_config" for t in tasks), *(INITS[t] for t in tasks if t in INITS)}


def in_run(butler):
    return {n for n, r in butler.content if r == RUN}


def verify_done(eng, butler, before, tasks, now, exact=True):
    eng.check(in_run(butler) == names(tasks), "the output run does not have every config, the packages and init-outputs",
              str(sorted(in_run(butler) ^ names(tasks))))
    old = before.get(("packages", RUN))
    for key, (i, obj) in before.items():
        if key == ("packages", RUN):
            continue
        eng.check(key in butler.content and butler.content[key][0] == i, "an existing dataset was replaced", str(key))
        got = butler.content[key][1]
        eng.check(got.x == obj.x if isinstance(obj, PipelineTaskConfig) else
                  verify_packages(eng, got, obj, {}) if isinstance(obj, Packages) else got == obj,
                  "an existing dataset was changed", str(key))
    for t in tasks:
        if (f"{t}_config", RUN) not in before:
            c = butler.content[f"{t}_config", RUN][1]
            eng.check(type(c) is type(PIPELINE.tasks[t].config) and c.x == 0, "the wrong config was written", t)
        if t in INITS and (INITS[t], RUN) not in before:
            eng.check(butler.content[INITS[t], RUN][1] == {"from": t}, "a wrong init-output was written",
                      str(butler.content[INITS[t], RUN][1]))
    for (name, run), (i, _) in butler.content.items():
        eng.check(i == rid(name, run), "a dataset was written with an ID other than the predicted one", name)
    got = butler.content["packages", RUN][1]
    if exact:
        verify_packages(eng, got, old[1] if old else {}, now)
        n = sorted(butler.puts)
        want = sorted((name, RUN) for name in names(tasks) if (name, RUN) not in before)
        if old and set(now) - set(old[1]):
            want = sorted([*want, ("packages", RUN)])
            eng.reach("merged")
        eng.check(n == want, "datasets were not written exactly once", f"{n} {want}")


def verify_packages(eng, got, old, now):
    eng.check(set(got) == set(old) | set(now), "packages are lost or invented")
    for k in got:
        eng.check(got[k] == (old[k] if k in old else now[k]), "a package has the wrong version")
    return True


def verify_seen(eng, butler, tasks):
    """What the tasks were given as init-inputs."""
    eng.check(sorted(s[0] for s in SEEN) == sorted(tasks), "tasks were not constructed once each", str(SEEN))
    for label, got in SEEN:
        want = {}
        if label != "p":
            want["s_in"] = {"from": "p"} if "p" in tasks else {"from": "p", "run": INRUN}
            want["ext"] = {"from": "ext"}
        if label == "r":
            want["sq_in"] = {"from": "q"} if "q" in tasks else {"from": "q", "run": INRUN}
        eng.check(got == want, "a task was given other init-inputs than the stored or predicted ones", f"{label} {got} {want}")


def externals(butler):
    butler.preset("ext", INRUN, {"from": "ext"})
    for label, name in INITS.items():
        butler.preset(name, INRUN, {"from": label, "run": INRUN})


GRAPHS = {}


def graph_of(eng, kind, subset=True):
    if kind == "old":
        if "old" not in GRAPHS:
            GRAPHS["old"] = predicted(LABELS).to_old_quantum_graph()
        return LABELS, GRAPHS["old"]
    tasks = tuple(t for t in LABELS if eng.bool(f"task-{t}")) if subset else LABELS
    eng.assume(bool(tasks))
    if tasks not in GRAPHS:
        GRAPHS[tasks] = predicted(tasks)
    return tasks, GRAPHS[tasks]


def init_run(eng, kind, what):
    """init_output_run with anything existing."""
    tasks, g = graph_of(eng, kind, what != "versions")
    b = MemButler()
    externals(b)
    now, undo = system(eng)
    try:
        exists, bad_config, bad_version = preset_outputs(eng, b, tasks, RUN, "", now, what)
        before = {k: (i, clone(o)) for k, (i, o) in b.content.items()}
        existing = eng.bool("existing")
        SEEN.clear()
        MUTATE.clear()
        kind_, r = outcome(g.init_output_run, b, existing=bool(existing))
        if (existing and (bad_config or bad_version)) or (not existing and exists):
            eng.check(kind_ == "exc" and isinstance(r, ConflictingDefinitionError),
                      "a conflict with existing datasets was not reported", f"{r!r} {exists}")
            if bad_config:
                eng.check(not b.puts, "datasets were written although a config conflicts", str(b.puts))
            for key, (i, obj) in before.items():
                eng.check(key in b.content and b.content[key][0] == i, "an existing dataset was removed or replaced")
            if "packages" in exists:
                verify_packages(eng, b.content["packages", RUN][1], before["packages", RUN][1], {})
            eng.reach("conflict" if existing else "refused")
        else:
            eng.check(kind_ == "ok", "initialising a compatible run failed", repr(r))
            verify_done(eng, b, before, tasks, now)
            verify_seen(eng, b, tasks)
            # a second call changes nothing
            after = {k: (i, clone(o)) for k, (i, o) in b.content.items()}
            b.puts.clear()
            b.pruned.clear()
            kind_, r = outcome(g.init_output_run, b)
            eng.check(kind_ == "ok" and not b.puts and not b.pruned, "initialising a run again is not idempotent", repr(r))
            verify_done(eng, b, after, tasks, now)
            kind_, r = outcome(g.init_output_run, b, existing=False)
            eng.check(kind_ == "exc" and isinstance(r, ConflictingDefinitionError) and not b.puts,
                      "an initialised run was not refused")
            eng.reach("done")
    finally:
        undo()


def crash(eng, kind):
    """A put fails; then initialisation is repeated."""
    tasks, g = graph_of(eng, kind)
    b = MemButler()
    externals(b)
    now, undo = system(eng)
    try:
        b.crash_at = eng.choice("crash", range(1, 8))
        step = {"all": g.init_output_run, "configs": g.write_configs, "packages": g.write_packages,
                "init": g.write_init_outputs}[eng.choice("step", ("all", "configs", "packages", "init"))]
        SEEN.clear()
        MUTATE.clear()
        kind_, r = outcome(step, b)
        if b.n_put >= b.crash_at:
            eng.check(kind_ == "exc" and isinstance(r, OSError), "a failed write was not reported", repr(r))
            eng.reach("crashed")
        else:
            eng.check(kind_ == "ok", "initialising a new run failed", repr(r))
        b.crash_at = None
        before = {k: (i, clone(o)) for k, (i, o) in b.content.items()}
        b.puts.clear()
        SEEN.clear()
        kind_, r = outcome(g.init_output_run, b)
        eng.check(kind_ == "ok", "initialisation cannot be completed after a crash", repr(r))
        verify_done(eng, b, before, tasks, now)
        eng.reach("resumed")
    finally:
        undo()


def isolation(eng, kind):
    """Tasks change the init-inputs they are given in place."""
    b = MemButler()
    externals(b)
    if kind == "pipeline":
        tasks, g = LABELS, PIPELINE
        del b.content["s_p", INRUN], b.content["s_q", INRUN]
    else:
        tasks, g = graph_of(eng, kind)
    now, undo = system(eng)
    try:
        SEEN.clear()
        MUTATE.clear()
        MUTATE.update({t: bool(eng.bool(f"mut{t}")) for t in ("q", "r")})
        before = {k: (i, clone(o)) for k, (i, o) in b.content.items()}
        kind_, r = outcome(g.init_output_run, b)
        eng.check(kind_ == "ok", "initialising a new run failed", repr(r))
        verify_done(eng, b, before, tasks, now)
        verify_seen(eng, b, tasks)
        if any(MUTATE.values()):
            eng.reach("mutated")
    finally:
        MUTATE.clear()
        undo()


def from_pipeline(eng):
    """PipelineGraph.init_output_run: random IDs, other runs are not looked at for outputs."""
    b = MemButler()
    now, undo = system(eng)
    try:
        b.preset("ext", INRUN, {"from": "ext"})
        what = eng.choice("what", ("configs", "packages", "init"))
        other = set()
        if what == "packages":
            for tag, run in (("i", INRUN), ("o", RUN)):
                if eng.bool(f"{tag}pk"):
                    old = Packages()
                    for i in range(3):
                        if eng.bool(f"{tag}has{i}"):
                            old[f"k{i}"] = eng.int(f"{tag}ver{i}")
                    b.preset("packages", run, old)
        else:
            for tag, run in (("i", INRUN), ("o", RUN)):
                for t in LABELS:
                    if what == "configs" and eng.bool(f"{tag}cfg{t}"):
                        cfg = type(PIPELINE.tasks[t].config)()
                        cfg.x = eng.choice(f"{tag}x{t}", (0, 1))
                        b.preset(f"{t}_config", run, cfg)
                    if what == "init" and t in INITS and eng.bool(f"{tag}s{t}"):
                        b.preset(INITS[t], run, {"from": t, "run": run})
        before = {k: (i, clone(o)) for k, (i, o) in b.content.items()}
        bad_config = any(o.x != 0 for (n, run), (_, o) in before.items() if n.endswith("_config") and run == RUN)
        bad_version = False
        if ("packages", RUN) in before:
            old = before["packages", RUN][1]
            bad_version = any([bool(old[k] != now[k]) for k in old.keys() & now.keys()])
        SEEN.clear()
        MUTATE.clear()
        kind_, r = outcome(PIPELINE.init_output_run, b)
        if bad_config or bad_version:
            eng.check(kind_ == "exc" and isinstance(r, ConflictingDefinitionError), "a conflict was not reported", repr(r))
            eng.check(not bad_config or not b.puts, "datasets were written although a config conflicts")
            for key, (i, obj) in before.items():
                eng.check(key in b.content and b.content[key][0] == i, "an existing dataset was removed or replaced")
            eng.reach("conflict")
        else:
            eng.check(kind_ == "ok", "initialising a compatible run failed", repr(r))
            verify_done(eng, b, before, LABELS, now)
            eng.check(all(run == RUN for _, run in [*b.puts, *b.pruned]), "something outside the output run was changed")
            eng.reach("done")
            b.puts.clear()
            kind_, r = outcome(PIPELINE.init_output_run, b)
            eng.check(kind_ == "ok" and not b.puts, "initialising a run again is not idempotent", repr(r))
    finally:
        undo()


def pre_execute(eng):
    """SeparablePipelineExecutor.pre_execute_qgraph with any options."""
    b = MemButler()
    externals(b)
    now, undo = system(eng)
    old_from_config = spe.Butler.from_config
    spe.Butler.from_config = lambda *a, **k: b
    try:
        g = predicted(LABELS)
        skip = bool(eng.bool("skip"))
        opts = {k: bool(eng.bool(k)) for k in ("register_dataset_types", "save_init_outputs", "save_versions")}
        exists = set()
        for label in LABELS:
            if label in INITS and eng.bool(f"s{label}"):
                b.preset(INITS[label], RUN, {"from": label, "run": RUN})
                exists.add(INITS[label])
        before = {k: (i, clone(o)) for k, (i, o) in b.content.items()}
        ex = spe.SeparablePipelineExecutor(b, skip_existing_in=[RUN] if skip else ["other"] if eng.bool("other") else None)
        SEEN.clear()
        MUTATE.clear()
        kind_, r = outcome(ex.pre_execute_qgraph, g, **opts)
        if opts["save_init_outputs"] and exists and not skip:
            eng.check(kind_ == "exc" and isinstance(r, ConflictingDefinitionError), "existing init-outputs were not reported")
            eng.check(not b.puts, "datasets were written although init-outputs exist")
            eng.reach("refused")
        else:
            eng.check(kind_ == "ok", "initialisation failed", repr(r))
            want = set(exists)
            if opts["save_init_outputs"]:
                want |= names(LABELS) - {"packages"}
            if opts["save_versions"]:
                want |= {"packages"}
            eng.check(in_run(b) == want, "not what was asked for was written", str(in_run(b) ^ want))
            for key, (i, obj) in before.items():
                eng.check(b.content[key] == (i, obj), "an existing dataset was changed")
            types = {d.name for d in PIPELINE.dataset_types.values()} | ({"packages"} if opts["save_versions"] else set())
            eng.check({d.name for d in b.registered} == (types if opts["register_dataset_types"] else set()),
                      "wrong dataset types were registered")
            eng.reach("done")
    finally:
        spe.Butler.from_config = old_from_config
        undo()


def registrations(eng):
    """register_dataset_types with any options, then check_dataset_type_registrations with any types changed."""
    b = MemButler()
    opts = {k: bool(eng.bool(k)) for k in ("include_packages", "include_inputs", "include_configs", "include_logs")}
    PIPELINE.register_dataset_types(b, **opts)
    want = {n for n, d in PIPELINE.dataset_types.items()}
    if not opts["include_inputs"]:
        want -= {"raw", "ext", "opt"}
    if not opts["include_configs"]:
        want -= {f"{t}_config" for t in LABELS}
    if not opts["include_logs"]:
        want -= {f"{t}_log" for t in LABELS}
    if opts["include_packages"]:
        want |= {"packages"}
    got = {d.name: d for d in b.registered}
    eng.check(set(got) == want and len(b.registered) == len(want), "wrong dataset types were registered",
              str(set(got) ^ want))
    for n, d in got.items():
        eng.check(d == (PIPELINE.packages_dataset_type if n == "packages" else PIPELINE.dataset_types[n].dataset_type),
                  "a dataset type was registered with another definition", n)
    target = eng.choice("target", ("none", "raw", "opt", "ext", "s_p", "o_q", "p_config", "packages"))
    if target != "none":
        change = eng.choice("change", ("drop", "alter"))
        if change == "drop":
            b.known.pop(target, None)
        elif target in b.known:
            t = b.known[target]
            b.known[target] = DatasetType(t.name, t.dimensions, "TaskMetadata" if t.storageClass_name != "TaskMetadata" else SC)
    include = bool(eng.bool("check-packages"))
    need = {*PIPELINE.dataset_types, *(["packages"] if include else [])}
    missing = {n for n in need if n not in b.known} - {"opt"}
    altered = target in need and target in b.known and change == "alter" if target != "none" else False
    kind_, r = outcome(PIPELINE.check_dataset_type_registrations, b, include)
    if altered and missing:
        eng.check(kind_ == "exc" and isinstance(r, (ConflictingDefinitionError, MissingDatasetTypeError)), "not reported")
    elif altered:
        eng.check(kind_ == "exc" and isinstance(r, ConflictingDefinitionError), "a changed dataset type was not reported", repr(r))
        eng.reach("changed")
    elif missing:
        eng.check(kind_ == "exc" and isinstance(r, MissingDatasetTypeError), "a missing dataset type was not reported", repr(r))
        eng.check(all(n in str(r) for n in missing), "a missing dataset type is not named")
        eng.reach("missing")
    else:
        eng.check(kind_ == "ok", "registrations in order were refused", repr(r))
        eng.reach("fine")


def cases(tier):
    out = []
    for kind, text in (("new", "any subset of three tasks"), ("old", "three tasks")):
        out += [
            Case(f"datasets-{kind}", init_run, dict(kind=kind, what="datasets"), f"{text}, any existing datasets",
                 ("done", "conflict", "refused", "merged"), validate_every=200, time_cap=800),
            Case(f"versions-{kind}", init_run, dict(kind=kind, what="versions"),
                 "three tasks, packages with any versions", ("done", "conflict", "refused", "merged"),
                 validate_every=20, time_cap=800),
            Case(f"crash-{kind}", crash, dict(kind=kind), f"{text}, a failure at any write", ("crashed", "resumed")),
            Case(f"isolation-{kind}", isolation, dict(kind=kind), f"{text} that change their init-inputs", ("mutated",)),
        ]
    if tier == "thorough":
        out.append(Case("all-old", init_run, dict(kind="old", what="versions+"), "three tasks, any existing datasets and versions",
                        ("done", "conflict", "refused", "merged"), validate_every=1000, time_cap=3000))
    return out + [
        Case("isolation-pipeline", isolation, dict(kind="pipeline"), "tasks that change their init-inputs", ("mutated",)),
        Case("run-pipeline", from_pipeline, {}, "any datasets in the input and the output run", ("done", "conflict", "merged"),
             validate_every=100, time_cap=800),
        Case("pre-execute", pre_execute, {}, "any options", ("done", "refused")),
        Case("registrations", registrations, {}, "any options, one type dropped or changed", ("fine", "changed", "missing")),
    ]
