"""C25: the aggregator's ingester: every dataset registered exactly once, with its records, over any interruptions."""

from __future__ import annotations

from lsst.daf.butler import DataCoordinate, DatasetRef
from lsst.daf.butler.registry import ConflictingDefinitionError
from lsst.pipe.base.quantum_graph.aggregator import _ingester
from lsst.pipe.base.quantum_graph.aggregator._structs import IngestRequest

from symx.core import Stub, outcome
from symx.runner import Case

from . import _agg_env as ag
from . import _qg_env as e

ASSUMPTIONS = [
    "the registry is a stand-in: transactions are atomic, importing a known ID raises ConflictingDefinitionError",
    "dying is an exception at any call into the repository, after which a new ingester starts with the same requests",
]

DIMS = ({"instrument": "I", "detector": 0}, {"instrument": "I"})


def make_ref(name, k):
    dt = e.PIPELINE.dataset_types[name].dataset_type
    data = DataCoordinate.standardize(instrument="I", universe=e.UNIVERSE, **(
        {"detector": k} if "detector" in dt.dimensions else {}))
    return DatasetRef(dt, data, run=e.RUN, id=e.uid(f"{name}-{k}"))


# what three producers may have made: two dimension groups, one or two datasets each
PRODUCERS = (("mid", "a_metadata"), ("mid",), ("out", "b_log"))


def request(k, present, stores):
    """`stores`: how many datastores know the datasets."""
    refs = [make_ref(name, k) for name, p in zip(PRODUCERS[k], present) if p]
    return IngestRequest(e.uid(f"q{k}"), refs, {f"ds{i}": ag.record_data([r.id for r in refs]) for i in range(stores)}
                         if refs else {})


class Predicted:
    def __init__(self, header):
        self.header = header
        self.pipeline_graph = e.PIPELINE


class Reader:
    header = None

    @classmethod
    def open(cls, *args, **kwargs):
        return cls()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    @property
    def components(self):
        return Predicted(self.header)

    def read_init_quanta(self):
        pass

    def read_thin_graph(self):
        pass


class Comms(Stub):
    def __init__(self, config, requests):
        self.config = config
        self.requests = requests
        self.log = ag.Log()
        self.reported = []
        self.messages = []

    def poll(self):
        yield from self.requests

    def report_ingest(self, n):
        self.reported.append(n)

    def log_progress(self, level, message):
        self.messages.append(message)

    def check_for_cancel(self):
        pass


def run(repo, config, requests):
    comms = Comms(config, requests)
    butlers = []

    def from_config(*a, writeable=True, **k):
        butlers.append(ag.RepoButler(repo, writeable))
        return butlers[-1]

    class B(Stub):
        pass

    B.from_config = staticmethod(from_config)
    old = _ingester.Butler, _ingester.PredictedQuantumGraphReader
    _ingester.Butler, _ingester.PredictedQuantumGraphReader = B, Reader

    def go():
        with _ingester.Ingester("p", "b", comms) as ing:
            ing.loop()
        return ing

    try:
        kind, r = outcome(go)
    finally:
        _ingester.Butler, _ingester.PredictedQuantumGraphReader = old
    return kind, r, comms, butlers


def header(output="out", inputs=("in/run",)):
    from lsst.pipe.base.quantum_graph._common import HeaderModel
    return HeaderModel(inputs=list(inputs), output=output, output_run=e.RUN)


def verify_repo(eng, repo, refs, stores):
    eng.check(set(repo.rows) == {r.id for r in refs}, "not exactly the given datasets are registered",
              f"{len(repo.rows)} {len(refs)}")
    for r in refs:
        eng.check(repo.rows[r.id] == (r.datasetType.name, r.run), "a dataset is registered wrongly")
    want = {(f"ds{i}", r.id) for r in refs for i in range(stores)}
    eng.check(set(repo.records) == want and all(v == {"table": [("row", i)]} for (_, i), v in repo.records.items()),
              "datastore records do not match the registered datasets")


def requests_of(eng, n, max_stores):
    stores = eng.choice("stores", range(max_stores + 1)) if max_stores else 0
    shape = [tuple(bool(eng.bool(f"p{k}{i}")) for i in range(len(PRODUCERS[k]))) for k in range(n)]
    reqs = lambda: [request(k, shape[k], stores) for k in range(n) if any(shape[k])]  # noqa: E731
    return reqs, [r for q in reqs() for r in q.refs], stores


def plain(eng, n, dry):
    """No interruption; any datasets there already."""
    Reader.header = header()
    reqs, refs, stores = requests_of(eng, n, 1)
    repo = ag.Repo()
    there = [r for r in refs if eng.bool(f"there{r.datasetType.name}{refs.index(r)}")]
    repo.runs.add(e.RUN)
    for r in there:
        repo.rows[r.id] = (r.datasetType.name, r.run)
        for i in range(stores):
            repo.records[f"ds{i}", r.id] = {"table": [("row", r.id)]}
    other = e.uid("other")  # a dataset of the run that nobody asks for
    repo.rows[other] = ("x", e.RUN)
    cfg = ag.config(ingest_batch_size=eng.choice("batch", (0, 1, 2, 10)), defensive_ingest=bool(eng.bool("defensive")),
                    dry_run=dry, register_dataset_types=bool(eng.bool("register")), update_output_chain=False)
    before = dict(repo.rows), dict(repo.records)
    kind, r, comms, butlers = run(repo, cfg, reqs())
    eng.check(kind == "ok", "ingesting failed", repr(r))
    eng.check(sum(comms.reported) == len(reqs()), "not every producer was reported once", str(comms.reported))
    eng.check(all(b.closed == 1 for b in butlers), "the butler was not closed")
    if dry:
        eng.check((repo.rows, repo.records) == before and not repo.types and repo.steps <= 1, "a dry run changed something")
        eng.reach("dry")
        return
    del repo.rows[other]
    verify_repo(eng, repo, refs, stores)
    eng.check(r.n_datasets_ingested == len(refs) - len(there), "wrong count of ingested datasets", str(r.n_datasets_ingested))
    eng.check(r.n_datasets_skipped == len(there), "wrong count of skipped datasets", str(r.n_datasets_skipped))
    types = ({n for n in e.PIPELINE.dataset_types if e.PIPELINE.producer_of(n) is not None} | {"packages"}
             if cfg.register_dataset_types else set())
    eng.check(repo.types == types, "wrong dataset types were registered", str(repo.types ^ types))
    if there:
        eng.reach("defensive" if cfg.defensive_ingest else "switched")
    else:
        eng.reach("fresh")


def crash(eng, n, stores, n_crashes=1):
    """The process dies at any call, possibly more than once, and is started again with any options."""
    Reader.header = header(output=eng.choice("output", ("out", None)), inputs=("in/chain", "in/run"))
    shape = [tuple(bool(eng.bool(f"p{k}{i}")) for i in range(len(PRODUCERS[k]))) if n < 3 and n_crashes < 2 else (True,) * len(PRODUCERS[k])
             for k in range(n)]
    reqs = lambda: [request(k, shape[k], stores) for k in range(n) if any(shape[k])]  # noqa: E731
    refs = [r for q in reqs() for r in q.refs]
    repo = ag.Repo()
    repo.chains["in/chain"] = ["in/a", "in/b"]
    if old := eng.bool("oldchain"):
        repo.chains["out"] = ["old/run"]
    for c in range(n_crashes):
        cfg = ag.config(ingest_batch_size=eng.choice(f"batch{c}", (0, 1, 10)[:n]), defensive_ingest=bool(eng.bool(f"def{c}")),
                        register_dataset_types=False)
        repo.dies = lambda step, c=c: bool(eng.bool(f"die{c}-{step}"))
        kind, r, comms, _ = run(repo, cfg, reqs())
        if repo.dies is None:
            eng.check(kind == "exc" and isinstance(r, ag.Crash), "dying was not noticed", repr(r))
            eng.reach("crashed")
        else:
            eng.check(kind == "ok", "ingesting failed", repr(r))
        repo.dies = None
        ids = {i for i in repo.rows}
        eng.check(ids <= {r.id for r in refs} and {i for _, i in repo.records} <= ids and
                  all((f"ds{i}", j) in repo.records for j in ids for i in range(stores)),
                  "datasets and their records are not written together")
    cfg = ag.config(ingest_batch_size=eng.choice("batch", (0, 1, 10)[:n]), defensive_ingest=bool(eng.bool("def")),
                    register_dataset_types=False)
    kind, r, comms, _ = run(repo, cfg, reqs())
    eng.check(kind == "ok", "ingesting cannot be completed after an interruption", repr(r))
    verify_repo(eng, repo, refs, stores)
    eng.check(sum(comms.reported) == len(reqs()), "not every producer was reported once", str(comms.reported))
    eng.check(r.n_datasets_ingested + r.n_datasets_skipped == len(refs), "counts do not add up")
    if Reader.header.output is None:
        eng.check("out" not in repo.chains or old and repo.chains["out"] == ["old/run"], "a chain was changed without being asked")
    else:
        want = [e.RUN, "old/run"] if old else [e.RUN, "in/a", "in/b", "in/run"]
        eng.check(repo.chains["out"] == want, "the output chain is wrong", str(repo.chains["out"]))
    eng.reach("done")


def conflict(eng, n):
    """The repository refuses a dataset for another reason: this must surface, and end."""
    Reader.header = header()
    reqs, refs, stores = requests_of(eng, n, 0)
    eng.assume(bool(refs))
    repo = ag.Repo()
    there = {r.id for r in refs if eng.bool(f"there{refs.index(r)}")}
    repo.runs.add(e.RUN)
    for r in refs:
        if r.id in there:
            repo.rows[r.id] = (r.datasetType.name, r.run)
        elif eng.bool(f"bad{refs.index(r)}"):
            repo.conflicts.add(r.id)
    eng.assume(bool(repo.conflicts))
    cfg = ag.config(ingest_batch_size=eng.choice("batch", (0, 1, 10)), defensive_ingest=bool(eng.bool("defensive")),
                    register_dataset_types=False, update_output_chain=False)
    kind, r, comms, butlers = run(repo, cfg, reqs())
    eng.check(kind == "exc" and isinstance(r, ConflictingDefinitionError), "a conflict was not reported", repr(r))
    eng.check(not repo.conflicts & set(repo.rows) and all(b.closed == 1 for b in butlers), "a refused dataset is registered")
    eng.check(sum(comms.reported) < len(reqs()), "a producer whose datasets were refused is reported as ingested")
    eng.reach("conflict")


def cases(tier):
    t = tier == "thorough"
    return [
        Case("plain", plain, dict(n=2, dry=False), "2 producers, any datasets present already", ("fresh", "defensive", "switched"),
             validate_every=100, time_cap=600),
        Case("plain-3", plain, dict(n=3, dry=False), "3 producers, any datasets present already", ("fresh", "defensive", "switched"),
             validate_every=500, time_cap=1500),
        Case("dry", plain, dict(n=2, dry=True), "2 producers", ("dry",), validate_every=100),
        Case("crash-2", crash, dict(n=2, stores=1), "2 producers, dying at any call", ("crashed", "done"), validate_every=200,
             time_cap=900),
        Case("crash-3", crash, dict(n=3, stores=2), "3 producers, dying at any call", ("crashed", "done"), validate_every=200,
             time_cap=900),
        Case("crash-twice", crash, dict(n=2 if t else 1, stores=1, n_crashes=2), "dying twice at any calls", ("crashed", "done"), validate_every=1000,
             time_cap=2500),
        Case("conflict", conflict, dict(n=3), "3 producers, any conflicts", ("conflict",), validate_every=200, time_cap=900),
    ]
