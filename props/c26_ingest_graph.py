"""C26: ingest_graph: metadata, logs and configs are never lost and end up backed by the graph, over any interruptions."""

from __future__ import annotations

import contextlib
import logging
import os
import posixpath
import shutil
import tempfile

from lsst.daf.butler import DatasetRef, DatasetNotFoundError
from lsst.daf.butler.datastore import DatasetRefURIs
from lsst.daf.butler.registry import ConflictingDefinitionError, MissingDatasetTypeError, OrphanedRecordError
from lsst.pipe.base.automatic_connection_constants import PROVENANCE_DATASET_TYPE_NAME
from lsst.pipe.base.quantum_graph import ingest_graph as ig
from lsst.pipe.base.quantum_graph._provenance import ProvenanceQuantumGraphReader
from lsst.pipe.base.quantum_graph.formatter import ProvenanceFormatter
from lsst.resources import ResourcePath

from symx.core import Stub, outcome
from symx.runner import Case

from . import _qg_env as e
from . import c12_provenance_graph as prov
from ._agg_env import Crash

ASSUMPTIONS = [
    "the butler and the file system are stand-ins: transactions and a butler ingest are atomic, a file or directory is removed at once",
    "dying is an exception at any call into them; then ingest_graph starts again, with or without the graph's location",
    "the provenance graphs are real files, made for any endings of the quanta",
]
logging.getLogger("lsst.pipe.base.quantum_graph.ingest_graph").disabled = True
logging.getLogger("lsst.pipe.base").setLevel(logging.CRITICAL)

TOP = "/nonexistent-c26"  # nothing real lies here
GRAPH = f"{TOP}/submit/run.qg"


class Fixed:
    """Makes the first choice."""

    def choice(self, name, options):
        return options[0]

    def bool(self, name):
        return True

    def check(self, ok, what, detail=""):
        assert ok, what


_graphs = {}
_dir = None


def graph(ends, configs):
    """A provenance graph file for these endings and existing configs; (path, produced refs, all refs)."""
    global _dir
    key = ends, configs
    if key not in _graphs:
        if _dir is None:
            _dir = tempfile.mkdtemp(prefix="c26-")
            import atexit
            atexit.register(shutil.rmtree, _dir, ignore_errors=True)
        quanta = [e.quantum_a(d) for d in range(min(len(ends), 2))]
        if len(ends) > 2:
            quanta.append(e.quantum_b([0, 1]))
        truth, scans = {}, {}
        for k, (q, end) in enumerate(zip(quanta, ends)):
            truth[q.quantum_id], scans[q.quantum_id] = prov.ending(Fixed(), q, f"q{k}", (end,))
        init = {d.dataset_id for q in e.init_quanta() for d in e.all_outputs(q)
                if not d.dataset_type_name.endswith("_config") or d.dataset_type_name[0] in configs}
        path = os.path.join(_dir, f"{os.getpid()}-{len(_graphs)}.qg")
        prov.write(Fixed(), path, quanta, truth, scans, init, False, "inputs-last")
        made, others = {}, {}
        for q in quanta:
            t = truth[q.quantum_id]
            for d in e.all_outputs(q):
                if d.dataset_id in (t["md"], t["log"]):
                    (made if d.dataset_id in t["produced"] else others)[d.dataset_id] = d
                else:
                    others[d.dataset_id] = d
        for q in e.init_quanta():
            for d in e.all_outputs(q):
                is_config = d.dataset_type_name.endswith("_config")
                (made if is_config and d.dataset_id in init else others)[d.dataset_id] = d
        _graphs[key] = path, made, others
    return _graphs[key]


class World:
    """What survives the process: files, directories, database rows, datastore records."""

    def __init__(self, real_graph, root, layout):
        self.real_graph = real_graph
        self.root = root
        self.layout = layout
        self.stored_graph = f"{root}/run_provenance.qg"
        self.files = {}  # path -> content
        self.dirs = set()
        self.rows = {}  # id -> (type, run, data ID)
        self.records = {}  # id -> (path, graph-backed)
        self.types = set()
        self.steps = 0
        self.dies = None
        self.refuses = set()  # paths that cannot be removed

    def step(self, what):
        self.steps += 1
        if self.dies is not None and self.dies(self.steps):
            self.dies = None
            raise Crash(what)

    # files
    def write(self, path, content):
        self.mkdir(posixpath.dirname(path))
        self.files[path] = content

    def mkdir(self, path):
        while path and path != "/":
            self.dirs.add(path)
            path = posixpath.dirname(path)

    def entries(self, top):
        pre = top.rstrip("/") + "/"
        return (sorted(d[len(pre):] for d in self.dirs if d.startswith(pre) and "/" not in d[len(pre):]),
                sorted(f[len(pre):] for f in self.files if f.startswith(pre) and "/" not in f[len(pre):]))

    def place(self, name, data):
        """Where a dataset's original file is."""
        sub = "/".join(map(str, data)) or "all"
        if self.layout == "flat":
            return f"{self.root}/files/{sub}_{name}.json"
        if self.layout == "deep":
            return f"{self.root}/{e.RUN}/{name}.x/{sub}/file.json"
        return f"{self.root}/{e.RUN}/{name}/{sub}.json"


class Path(Stub):
    sep = "/"

    def __init__(self, w):
        self.w = w

    def isdir(self, p):
        return p in self.w.dirs

    def isfile(self, p):
        return p in self.w.files

    def exists(self, p):
        return p in self.w.dirs or p in self.w.files

    lexists = exists
    join = staticmethod(posixpath.join)
    dirname = staticmethod(posixpath.dirname)
    basename = staticmethod(posixpath.basename)
    split = staticmethod(posixpath.split)
    normpath = staticmethod(posixpath.normpath)
    relpath = staticmethod(posixpath.relpath)
    commonpath = staticmethod(posixpath.commonpath)

    def islink(self, p):
        return False


class Os(Stub):
    sep = "/"
    fspath = staticmethod(os.fspath)

    def __init__(self, w):
        self.w = w
        self.path = Path(w)

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        if top not in self.w.dirs:
            return
        dirs, files = self.w.entries(top)
        if topdown:
            yield top, dirs, files
        for d in dirs:
            yield from self.walk(posixpath.join(top, d), topdown)
        if not topdown:
            yield top, dirs, files

    def listdir(self, path):
        if path not in self.w.dirs:
            raise FileNotFoundError(path)
        d, f = self.w.entries(path)
        return d + f

    def rmdir(self, path):
        self.w.step("rmdir")
        path = path.rstrip("/")
        if path not in self.w.dirs:
            raise FileNotFoundError(path)
        if any(self.w.entries(path)):
            raise OSError(39, "Directory not empty", path)
        self.w.dirs.remove(path)


class Status:
    def __init__(self, exception=None):
        self.success = exception is None
        self.exception = exception


class Removal:
    """Stands in for the class: makes real paths, removes stand-in files."""

    def __init__(self, w):
        self.w = w

    def __call__(self, *a, **k):
        return ResourcePath(*a, **k)

    def mremove(self, uris, *, do_raise=True):
        out = {}
        for u in uris:
            self.w.step("remove")
            p = u.ospath
            if p in self.w.refuses:
                out[u] = Status(PermissionError(p))
            elif p not in self.w.files:
                out[u] = Status(FileNotFoundError(p))
            else:
                del self.w.files[p]
                out[u] = Status()
            if do_raise and not out[u].success:
                raise ExceptionGroup("", [out[u].exception])
        return out


def data_id_of(ref):
    return tuple(ref.dataId.required_values)


class Butler(Stub):
    dimensions = e.UNIVERSE

    def __init__(self, w, collections):
        self.w = w
        self.default = collections
        self.open = True
        self.in_transaction = False
        outer = self

        class registry(Stub):
            @contextlib.contextmanager
            def transaction(self, *, savepoint=False):
                w.step("begin")
                saved = dict(w.rows), dict(w.records)
                outer.in_transaction = True
                try:
                    yield
                    w.step("commit")
                except BaseException:
                    w.rows, w.records = saved
                    raise
                finally:
                    outer.in_transaction = False

            def registerDatasetType(self, dataset_type):
                w.step("type")
                w.types.add(dataset_type.name)
                return True

            def _fetch_run_dataset_ids(self, run):
                w.step("fetch")
                return [i for i, r in w.rows.items() if r[1] == run]

            def removeDatasets(self, refs):
                w.step("remove rows")
                for r in refs:
                    if r.id in w.records:
                        raise OrphanedRecordError(str(r.id))
                    w.rows.pop(r.id, None)

            def expand_refs(self, refs):
                out = []
                for r in refs:
                    out.append(DatasetRef(r.datasetType, r.dataId, run=r.run, id=r.id))
                return out

        class datastore(Stub):
            def forget(self, refs):
                w.step("forget")
                for r in refs:
                    w.records.pop(r.id, None)

        self.registry = self._registry = registry()
        self._datastore = datastore()

    def transaction(self):
        return self.registry.transaction()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False

    def _find(self, name, collections):
        if name not in self.w.types:
            raise MissingDatasetTypeError(name)
        cols = collections if collections is not None else self.default
        cols = [cols] if isinstance(cols, str) else list(cols or ())
        for i, (n, run, d) in self.w.rows.items():
            if n == name and run in cols and not d:
                return i
        return None

    def find_dataset(self, name, *, collections=None, **kw):
        return self._find(name, collections)

    def _stored(self, name, collections):
        i = self._find(name, collections)
        if i is None:
            raise DatasetNotFoundError(name)
        if self.w.records[i][0] not in self.w.files:
            raise FileNotFoundError(name)
        return self.w.records[i][0]

    def get(self, name, *, parameters=None, collections=None, **kw):
        self._stored(name, collections)
        parameters = dict(parameters or {})
        with ProvenanceQuantumGraphReader.open(self.w.real_graph) as reader:  # as ProvenanceFormatter does (see C12)
            if parameters.get("read_init_quanta", True):
                reader.read_init_quanta()
            reader.read_quanta(parameters.get("quanta"))
            reader.read_datasets(parameters.get("datasets"))
            return reader.graph

    def getURI(self, name, *, collections=None, **kw):
        return ResourcePath(self._stored(name, collections), forceDirectory=False)

    def ingest(self, *datasets, transfer="auto", **kw):
        w = self.w
        w.step("ingest")
        for fd in datasets:
            path = fd.path.ospath if isinstance(fd.path, ResourcePath) else fd.path
            if path not in w.files:
                raise FileNotFoundError(path)
            for r in fd.refs:
                if r.id in w.rows or any(row == (r.datasetType.name, r.run, data_id_of(r)) for row in w.rows.values()):
                    raise ConflictingDefinitionError(str(r))
                if r.datasetType.name not in w.types:
                    raise MissingDatasetTypeError(r.datasetType.name)
            content = w.files[path]
            if transfer is not None and transfer != "direct":
                if transfer == "move":
                    del w.files[path]
                path = w.stored_graph
                w.write(path, content)
            for r in fd.refs:
                w.rows[r.id] = r.datasetType.name, r.run, data_id_of(r)
                w.records[r.id] = path, fd.formatter is ProvenanceFormatter
        w.step("ingested")


class QBB(Stub):
    def __init__(self, w):
        self.w = w

    def get_many_uris(self, refs, predict=False, allow_missing=False):
        return {r: DatasetRefURIs(ResourcePath(self.w.place(r.datasetType.name, data_id_of(r)), forceDirectory=False)) for r in refs}


def run(w, uri, **kw):
    class B(Stub):
        @staticmethod
        def from_config(config, *, collections=None, writeable=None, **k):
            if not writeable:
                raise TypeError("read-only")
            w.butlers.append(Butler(w, collections))
            return w.butlers[-1]

    class Q(Stub):
        @staticmethod
        def from_predicted(config, predicted_inputs=(), predicted_outputs=(), **k):
            return QBB(w)

    class R(Stub):
        @staticmethod
        def open(u, **k):
            if ResourcePath(u).ospath not in w.files:
                raise FileNotFoundError(str(u))
            return ProvenanceQuantumGraphReader.open(w.real_graph, **k)

    names = dict(Butler=B, QuantumBackedButler=Q, ProvenanceQuantumGraphReader=R, os=Os(w), ResourcePath=Removal(w))
    old = {k: getattr(ig, k) for k in names}
    w.butlers = []
    for k, v in names.items():
        setattr(ig, k, v)
    try:
        return outcome(ig.ingest_graph, "repo", uri, **kw)
    finally:
        for k, v in old.items():
            setattr(ig, k, v)


def state_ok(eng, w, made, others):
    """The guarantees that hold at every moment."""
    prov_ids = [i for i, r in w.rows.items() if r[0] == PROVENANCE_DATASET_TYPE_NAME]
    eng.check(len(prov_ids) <= 1, "the graph was ingested twice")
    done = bool(prov_ids)
    if done:
        path, backed = w.records[prov_ids[0]]
        eng.check(backed and w.files.get(path) == "graph", "the graph was ingested without its file")
    else:
        eng.check(w.files.get(GRAPH) == "graph", "the graph is lost")
    for i, d in made.items():
        p = w.place(d.dataset_type_name, d.data_coordinate)
        there = w.files.get(p) == i
        eng.check(done or there or i in w.never, "content lost before the graph was ingested", d.dataset_type_name)
        if i in w.rows:
            eng.check(w.rows[i] == (d.dataset_type_name, d.run, tuple(d.data_coordinate)) and i in w.records,
                      "a dataset is registered wrongly")
            eng.check(w.records[i] == ((w.records[prov_ids[0]][0], True) if done else (p, False)),
                      "a dataset is not backed by what should hold it", d.dataset_type_name)
            eng.check(not done or not there, "an original file was left behind")
        else:
            eng.check(i not in w.records, "datastore records without a dataset")
    for i, row in w.kept_rows.items():
        eng.check(w.rows.get(i) == row and w.records.get(i) == w.kept_records.get(i), "another dataset was touched")
    for p, c in w.kept_files.items():
        eng.check(w.files.get(p) == c, "another file was removed", p)
    eng.check(w.kept_dirs <= w.dirs, "another directory was removed", str(w.kept_dirs - w.dirs))
    eng.check(all(posixpath.dirname(p) in w.dirs for p in [*w.files, *w.dirs] if posixpath.dirname(p) != "/"),
              "harness: a directory that is not empty was removed")
    return done


def final(eng, w, made, others, tidy):
    eng.check(state_ok(eng, w, made, others), "the graph was not ingested")
    eng.check(set(made) <= set(w.rows), "not every dataset was ingested", str(len(set(made) - set(w.rows))))
    extra = set(w.rows) - set(made) - set(w.kept_rows)
    eng.check(len(extra) == 1, "something else was ingested")
    left = [p for p in w.files if p not in w.kept_files and p not in (GRAPH, w.stored_graph)]
    eng.check(not left, "original files were left behind", str(left))
    if tidy:
        for i, d in made.items():
            p = posixpath.dirname(w.place(d.dataset_type_name, d.data_coordinate))
            eng.check(p not in w.dirs or p in w.kept_dirs, "an empty directory of the datasets was left behind", p)


def world(eng, ends, configs, there, root, layout, strange=False, gone=False):
    path, made, others = graph(ends, configs)
    w = World(path, root, layout)
    w.files[GRAPH] = "graph"
    w.mkdir(posixpath.dirname(GRAPH))
    w.mkdir(root)
    w.types.update(e.PIPELINE.dataset_types.keys())
    w.never = set()
    for i, d in made.items():
        p = w.place(d.dataset_type_name, d.data_coordinate)
        if gone and d.dataset_type_name == "b_config":
            w.never.add(i)  # the config of a task that did not run was never written
            continue
        w.write(p, i)
        if there(i, d):
            w.rows[i] = d.dataset_type_name, d.run, tuple(d.data_coordinate)
            w.records[i] = p, False
    # what must not be touched: other outputs, leftovers, empty directories elsewhere
    w.kept_rows, w.kept_records, w.kept_files = {}, {}, {}
    for i, d in others.items():
        if d.dataset_type_name.endswith(("_log", "_metadata", "_config")):
            if strange:
                p = w.place(d.dataset_type_name, d.data_coordinate)
                w.write(p, "strange")
                w.kept_files[p] = "strange"
            continue
        p = w.place(d.dataset_type_name, d.data_coordinate)
        w.write(p, i)
        w.kept_files[p] = i
        w.kept_rows[i] = w.rows[i] = d.dataset_type_name, d.run, tuple(d.data_coordinate)
        w.kept_records[i] = w.records[i] = p, False
    if strange:
        # somebody's notes inside one of the directories
        for i, d in made.items():
            if d.dataset_type_name == "a_log":
                p = posixpath.join(posixpath.dirname(w.place("a_log", d.data_coordinate)), "notes.txt")
                w.write(p, "notes")
                w.kept_files[p] = "notes"
                break
    w.kept_dirs = {f"{TOP}/submit", root, f"{posixpath.dirname(root)}/empty", f"{root}/mine"}
    for p in w.kept_files:
        while (p := posixpath.dirname(p)) != "/":
            w.kept_dirs.add(p)
    for p in w.kept_dirs:
        w.mkdir(p)
    return w, made, others


ENDS = ("ok", "failed", "aborted", "blocked")


OPTIONS = ((("move", 1), {}), (("copy", 2), {"output_run": e.RUN}), (("direct", 100), {}))
# a template without dataset types below a root that contains one cannot be told apart (documented guess)
PLACES = ((f"{TOP}/repo", "plain"), (f"{TOP}/a_log_study/repo", "deep"), (f"{TOP}/repo", "flat"), (f"{TOP}/repo", "deep"))


def plain(eng, n, places=PLACES, ends=ENDS):
    """No interruption, any endings, datasets there already, options."""
    end = tuple(eng.choice(f"end{k}", ends) for k in range(n))
    root, layout = eng.choice("place", places)
    w, made, others = world(eng, end, "ab", lambda i, d: bool(eng.bool(f"there-{d.dataset_type_name}{d.data_coordinate}")),
                            root, layout, bool(eng.bool("strange")), bool(eng.bool("never")))
    (transfer, batch), kw = eng.choice("options", OPTIONS)
    kind, r = run(w, GRAPH, transfer=transfer, batch_size=batch, **kw)
    eng.check(kind == "ok", "ingesting the graph failed", repr(r))
    eng.check(all(not b.open for b in w.butlers), "the butler was not closed")
    final(eng, w, made, others, True)
    eng.reach("made" if len(made) > 2 else "nothing")


def crash(eng, n, n_crashes, places=PLACES[:1], ends=ENDS, patterns=(1, 2, 0), modes=("move", "copy", "copy again"),
          batches=((2, 100), (1, 2), (100, 1))):
    """The process dies at any call, possibly again, and is started again."""
    end = tuple(eng.choice(f"end{k}", ends) for k in range(n))
    root, layout = eng.choice("place", places)
    pattern = eng.choice("there", patterns)  # all, some or none of the datasets are ingested
    seen = []
    w, made, others = world(eng, end, "ab", lambda i, d: pattern and (seen.append(i) or len(seen) % pattern == 0),
                            root, layout, pattern == 2)
    mode = eng.choice("mode", modes)
    batch = eng.choice("batch", batches)
    uri = GRAPH
    died = False
    for c in range(n_crashes + 1):
        if c < n_crashes:
            w.dies = lambda step, c=c: bool(eng.bool(f"die{c}-{step}"))
        w.steps = 0
        kind, r = run(w, uri, transfer=mode[:4], batch_size=batch[c % 2], **({} if uri else {"output_run": e.RUN}))
        if c < n_crashes and w.dies is None:
            eng.check(kind == "exc" and isinstance(r, Crash), "dying was not noticed", repr(r))
            died = True
            eng.reach("crashed")
        else:
            eng.check(kind == "ok", "ingesting the graph failed" + " after an interruption" * died, repr(r))
        w.dies = None
        eng.check(all(not b.open for b in w.butlers), "the butler was not closed")
        if state_ok(eng, w, made, others):
            # the graph may have been moved away, and the caller may know that it is ingested
            uri = GRAPH if mode == "copy again" else None
            eng.reach("resumed after the graph")
        elif kind == "exc":
            eng.reach("resumed before the graph")
        if kind == "ok":
            final(eng, w, made, others, not died)
    eng.reach("done")


def refused(eng):
    """A file cannot be removed, the run is not the graph's, or nothing was ingested: an error, and nothing is lost."""
    what = eng.choice("what", ("permission", "run", "nothing", "missing"))
    there = bool(eng.bool("there"))
    w, made, others = world(eng, ("ok", "failed"), "ab", lambda i, d: there, f"{TOP}/repo", "plain")
    batch = eng.choice("batch", (1, 2, 100))
    before = dict(w.rows), dict(w.records), dict(w.files)
    if what == "permission":
        for i, d in made.items():
            if eng.bool(f"no-{d.dataset_type_name}{d.data_coordinate}"):
                w.refuses.add(w.place(d.dataset_type_name, d.data_coordinate))
        eng.assume(bool(w.refuses))
        kind, r = run(w, GRAPH, batch_size=batch)
        eng.check(kind == "exc" and isinstance(r, PermissionError), "a file that cannot be removed is not reported", repr(r))
        state_ok(eng, w, made, others)
        for i, d in made.items():
            eng.check(i not in w.rows or w.place(d.dataset_type_name, d.data_coordinate) not in w.refuses,
                      "a dataset was ingested again though its file is still there")
        w.refuses.clear()
        kind, r = run(w, None, batch_size=batch, output_run=e.RUN)
        eng.check(kind == "ok", "ingesting the graph failed after the problem was solved", repr(r))
        final(eng, w, made, others, False)
    else:
        if what == "missing":
            del w.files[GRAPH]
            before = dict(w.rows), dict(w.records), dict(w.files)
        kind, r = (run(w, GRAPH, batch_size=batch, output_run="other/run") if what == "run" else
                   run(w, GRAPH, batch_size=batch) if what == "missing" else run(w, None, batch_size=batch, output_run=e.RUN))
        eng.check(kind == "exc" and isinstance(r, {"run": ValueError, "missing": FileNotFoundError,
                                                   "nothing": LookupError}[what]), "a mistake was not reported", repr(r))
        eng.check((w.rows, w.records, w.files) == before, "a refused request changed something")
    eng.check(all(not b.open for b in w.butlers), "the butler was not closed")
    eng.reach(what)


def cases(tier):
    t = tier == "thorough"
    return [
        Case("plain", plain, dict(n=1), "1 quantum, any datasets there, options and places", ("made", "nothing"),
             validate_every=500, time_cap=900),
        Case("plain-2", plain, dict(n=3 if t else 2, places=PLACES[1:2], ends=ENDS if t else ("ok", "failed", "blocked")),
             "2 (thorough 3) quanta, any datasets there", ("made",), validate_every=500, time_cap=2500),
        *[Case(f"crash-{m.split()[-1]}", crash, dict(n=2, n_crashes=1, places=PLACES if t else PLACES[1:2],
                                    modes=(m,)),
               "2 quanta, dying at any call", ("crashed", "done", "resumed after the graph", "resumed before the graph"),
               validate_every=500, time_cap=2500) for m in ("move", "copy", "copy again")],
        *[Case(f"crash-twice-{m}", crash, dict(n=1, n_crashes=2, ends=("ok", "failed") if t else ("ok",), patterns=(2,), modes=(m,),
                                              batches=((2, 100), (1, 2), (100, 1)) if t else ((2, 1),)),
               "1 quantum, dying twice at any calls", ("crashed", "done"), validate_every=500, time_cap=2500) for m in ("move", "copy again")],
        Case("refused", refused, {}, "any files that cannot be removed; wrong requests", ("permission", "run", "nothing", "missing"),
             validate_every=100),
    ]
