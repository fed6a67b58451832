"""Stand-ins for the repository that the aggregator writes to."""

from __future__ import annotations

import contextlib
import copy

from lsst.daf.butler import CollectionType, DatasetRef
from lsst.daf.butler.datastore.record_data import DatastoreRecordData
from lsst.daf.butler.registry import ConflictingDefinitionError
from lsst.pipe.base.quantum_graph.aggregator import AggregatorConfig

from symx.core import Stub

from . import _qg_env as e


class Log(Stub):
    def _none(self, *a, **k):
        pass

    verbose = info = debug = warning = exception = critical = fatal = error = log = _none


class Crash(RuntimeError):
    """The process dies here: nothing after this is done."""


class Repo:
    """What survives the process: registry rows, datastore records, collections."""

    def __init__(self):
        self.rows = {}  # id -> (dataset type name, data ID values, run)
        self.records = {}  # (datastore, id) -> payload
        self.chains = {}
        self.runs = set()
        self.types = set()
        self.steps = 0
        self.dies = None  # asked at every step
        self.conflicts = set()  # ids that the database refuses for another reason

    def step(self, what):
        """A point where the process may die."""
        self.steps += 1
        if self.dies is not None and self.dies(self.steps):
            self.dies = None
            raise Crash(what)


class RepoButler(Stub):
    def __init__(self, repo, writeable=True):
        self.repo = repo
        self.writeable = writeable
        self.depth = 0
        self.caching = False
        self.closed = 0
        self.imports = 0
        outer = self

        class registry(Stub):
            @contextlib.contextmanager
            def transaction(self, *, savepoint=False):
                outer._check()
                repo.step("begin")
                saved = dict(repo.rows), dict(repo.records)
                outer.depth += 1
                try:
                    yield
                    repo.step("commit")
                except BaseException:
                    repo.rows, repo.records = saved
                    raise
                finally:
                    outer.depth -= 1

            @contextlib.contextmanager
            def caching_context(self):
                outer.caching = True
                try:
                    yield
                finally:
                    outer.caching = False

            def _importDatasets(self, refs, expand=True, assume_new=False):
                outer._check()
                refs = list(refs)
                outer.imports += 1
                repo.step("import")
                for r in refs:
                    if r.run not in repo.runs:
                        raise LookupError(f"no run {r.run}")
                    if r.id in repo.rows or r.id in repo.conflicts:
                        raise ConflictingDefinitionError(f"{r.id}")
                for r in refs:
                    repo.rows[r.id] = (r.datasetType.name, r.run)
                    if not outer.depth:
                        raise AssertionError("import outside a transaction")
                return refs

            def _fetch_run_dataset_ids(self, run):
                repo.step("fetch")
                return [i for i, row in repo.rows.items() if row[1] == run]

            def registerDatasetType(self, dataset_type):
                outer._check()
                repo.step("type")
                repo.types.add(dataset_type.name)
                return True

        class datastore(Stub):
            def import_records(self, data):
                outer._check()
                repo.step("records")
                for name, d in data.items():
                    for i, tables in d.records.items():
                        if (name, i) in repo.records:
                            raise ConflictingDefinitionError("records exist")
                        if i not in repo.rows:
                            raise LookupError("records of a dataset that is not in the registry")
                        repo.records[name, i] = copy.deepcopy(tables)

        class collections(Stub):
            def register(self, name, type=CollectionType.RUN, doc=None):
                outer._check()
                repo.step("register")
                if outer.caching:
                    raise RuntimeError("collections changed in caching context")
                if type is CollectionType.RUN:
                    new = name not in repo.runs
                    repo.runs.add(name)
                    return new
                new = name not in repo.chains
                repo.chains.setdefault(name, [])
                return new

            def query(self, expression, *, flatten_chains=False, **kw):
                out = []
                for c in ([expression] if isinstance(expression, str) else expression):
                    for x in (repo.chains[c] if flatten_chains and c in repo.chains else [c]):
                        if x not in out:
                            out.append(x)
                return out

            def get_info(self, name, **kw):
                from lsst.daf.butler import CollectionInfo
                return CollectionInfo(name=name, type=CollectionType.CHAINED if name in repo.chains else CollectionType.RUN,
                                      children=tuple(repo.chains.get(name, ())), doc="", parents=None, dataset_types=None)

            def _set(self, name, children):
                outer._check()
                repo.step("chain")
                if outer.caching:
                    raise RuntimeError("collections changed in caching context")
                repo.chains[name] = list(dict.fromkeys(children))

            def extend_chain(self, name, children):
                children = [children] if isinstance(children, str) else list(children)
                self._set(name, [c for c in repo.chains[name] if c not in children] + children)

            def prepend_chain(self, name, children):
                children = [children] if isinstance(children, str) else list(children)
                self._set(name, children + [c for c in repo.chains[name] if c not in children])

            def redefine_chain(self, name, children):
                self._set(name, [children] if isinstance(children, str) else list(children))

        self.registry = registry()
        self._datastore = datastore()
        self.collections = collections()

    dimensions = e.UNIVERSE

    def _check(self):
        if not self.writeable:
            raise TypeError("read-only butler")

    def close(self):
        self.closed += 1


def record_data(ids):
    """Datastore records of some datasets (the payload names the dataset)."""
    return DatastoreRecordData(records={i: {"table": [("row", i)]} for i in ids})


def config(**kw):
    kw.setdefault("n_processes", 1)
    return AggregatorConfig(**kw)
