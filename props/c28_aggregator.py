"""C28: the aggregator's processes: every quantum gets one outcome, and it always ends, whatever the order and failures."""

from __future__ import annotations

import contextlib
import copy
import logging
import types

import zstandard
from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords
from lsst.pipe.base._task_metadata import TaskMetadata
from lsst.pipe.base.quantum_graph import aggregator as agg
from lsst.pipe.base.quantum_graph._provenance import ProvenanceQuantumScanStatus as S
from lsst.pipe.base.quantum_graph.aggregator import _communicators, _ingester, _scanner, _supervisor, _workers, _writer

from symx.core import Stub, outcome
from symx.runner import Case
from symx.sched import Deadlock, Sched

from . import _agg_env as ag
from . import _qg_env as e

ASSUMPTIONS = [
    "processes and threads are cooperative threads that change places at queue operations; a queue hands over at once",
    "timeouts of queues fire when nothing else can happen, and up to a stated number of times besides",
    "reading the predicted graph, the butlers and the provenance writer are stand-ins; their faults are injected; interrupts come while quanta are being scanned",
]
logging.getLogger("lsst.pipe.base.quantum_graph.aggregator").disabled = True


class Boom(RuntimeError):
    """Injected failure."""


class SimQueue(_workers.Queue):
    def __init__(self, sim):
        self.sim = sim
        self.items = []

    def get(self, *, timeout=None, block=False):
        sim, s = self.sim, self.sim.sched
        s.point()
        sim.op()
        if self.items:
            return self.items.pop(0)
        if not block:
            return None
        if timeout is None:
            s.wait(lambda: self.items)
            return self.items.pop(0)
        if sim.timeouts and s.cur is s.main and sim.decide("timeout"):
            sim.timeouts -= 1
            return None
        if s.cur is s.main:
            s.wait(lambda: self.items or sim.someone_died())
        else:
            s.wait(lambda: self.items or sim.event.value)
        return self.items.pop(0) if self.items else None

    def put(self, item):
        self.sim.sched.point()
        self.sim.op()
        self.items.append(item)


class SimEvent:
    value = False

    def set(self):
        self.value = True

    def is_set(self):
        return self.value


class SimWorker(_workers.Worker):
    def __init__(self, sim, thr):
        super().__init__()
        self.sim = sim
        self.thr = thr

    @property
    def name(self):
        return self.thr.name

    def join(self, timeout=None):
        self.sim.sched.wait(lambda: self.thr.done)

    def is_alive(self):
        self.sim.sched.point()
        return not (self.thr.done or self.thr.killed)

    def kill(self):
        self.sim.sched.kill(self.thr)


class Sim:
    """One aggregation: the scheduler, the outside world and where something goes wrong."""

    def __init__(self, eng, preemptions, delays, timeouts, fault):
        self.eng = eng
        self.sched = Sched(eng, preemptions, delays)
        self.timeouts = timeouts
        self.fault = fault
        self.happened = False
        self.event = SimEvent()
        self.workers = []
        self.total = 0
        self.main_ops = 0
        self.scanning = False
        self.n = 0
        self.written = []
        self.opened = 0
        self.closed = 0
        self.cdict = None
        self.scanned = []

    def decide(self, what):
        self.n += 1
        return self.sched._choose([False, True], f"{what}{self.n}-")

    def someone_died(self):
        return any((w.thr.done or w.thr.killed) and not w.successful for w in self.workers)

    def op(self):
        self.total += 1
        if self.total > 3000:
            self.sched._end(Deadlock("it goes on for ever"))
            self.sched._alive()
        cur, f = self.sched.cur, self.fault
        if f[0] == "kill" and cur.name == f[1] and cur.ops >= f[2] and not self.happened:
            self.happened = True
            cur.killed = True
            self.sched._alive()
        if f[0] == "interrupt" and cur is self.sched.main and self.scanning:
            self.main_ops += 1
            if self.main_ops == f[1]:
                self.happened = True
                raise KeyboardInterrupt()

    def boom(self, *what):
        if self.fault[:len(what)] == what and not self.happened:
            self.happened = True
            raise Boom(str(what))

    # WorkerFactory
    def make_queue(self):
        return SimQueue(self)

    def make_event(self):
        return self.event

    def make_worker(self, target, args, name=None):
        w = SimWorker(self, self.sched.spawn(name, target, args))
        self.workers.append(w)
        return w


class World:
    """What the quanta left behind."""

    def __init__(self, quanta, ends, init):
        self.quanta = {q.quantum_id: q for q in quanta}
        self.ends = ends  # quantum ID -> "ok", "fail", "missing"
        self.present = {}
        for q in quanta:
            for d in e.all_outputs(q):
                end = ends[q.quantum_id]
                self.present[d.dataset_id] = end == "ok" or (end == "fail" and d.dataset_type_name.endswith("_log"))
        for q in init:
            for d in e.all_outputs(q):
                self.present[d.dataset_id] = True


def log_records(text):
    return ButlerLogRecords.from_records([ButlerLogRecord(
        name="n", asctime="2026-01-01T00:00:00+00:00", message=text, levelno=20, levelname="INFO", filename="f", pathname="p",
        lineno=1, process=1, processName="P", MDC={})])


def metadata_of(ref_id):
    m = TaskMetadata()
    m["who"] = str(ref_id)
    return m


@contextlib.contextmanager
def world(sim, w, master, repo):
    class Reader:
        def __init__(self):
            self.components = copy.copy(master)
            self.components.quantum_datasets = {}

        @classmethod
        def open(cls, path, **kw):
            name = sim.sched.cur.name
            sim.boom("open", name)
            return cls()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        @property
        def pipeline_graph(self):
            return self.components.pipeline_graph

        def read_dimension_data(self):
            pass

        def read_init_quanta(self):
            pass

        def read_thin_graph(self):
            pass

        def read_quantum_datasets(self, ids=None):
            for i in (master.quantum_datasets if ids is None else ids):
                self.components.quantum_datasets[i] = master.quantum_datasets[i].model_copy(deep=True)
                if ids is not None:
                    sim.scanned.append(i)
                    sim.boom("scan", i)

    class Qbb(Stub):
        class _datastore(Stub):
            @staticmethod
            def export_predicted_records(refs):
                refs = list(refs)
                return {"ds0": ag.record_data([r.id for r in refs])} if refs else {}

        def get(self, ref, *, storageClass=None, **kw):
            if not w.present[ref.id]:
                raise FileNotFoundError(str(ref))
            return log_records(str(ref.id)) if ref.datasetType.name.endswith("_log") else metadata_of(ref.id)

        def stored(self, ref):
            return w.present[ref.id]

        def stored_many(self, refs):
            return {r: self.stored(r) for r in refs}

        def close(self):
            sim.closed += 1

    class ButlerStub(Stub):
        @staticmethod
        def from_config(*a, writeable=True, **kw):
            sim.boom("butler")
            b = ag.RepoButler(repo, writeable)
            return b

    class QgWriter(Stub):
        def __init__(self, path, *, exit_stack, log_on_close, predicted, zstd_level, cdict_data, loop_wrapper=None, log=None):
            sim.boom("writer")
            sim.cdict = cdict_data
            sim.opened += 1
            exit_stack.callback(self.close)

        def close(self):
            sim.written.append("close")

        def write_scan_data(self, data):
            sim.boom("write", data.quantum_id)
            sim.written.append(data)

        def write_overall_inputs(self, wrapper=None):
            sim.written.append("overall")

        def write_packages(self):
            sim.written.append("packages")

        def write_init_outputs(self, assume_existence=True):
            sim.written.append("init")

    zs = types.SimpleNamespace(
        ZstdCompressionDict=zstandard.ZstdCompressionDict, ZstdError=zstandard.ZstdError,
        train_dictionary=lambda size, samples: zstandard.ZstdCompressionDict(b"0123456789 message quantum attempt" * 8))
    patches = [(_supervisor, "PredictedQuantumGraphReader", Reader), (_scanner, "PredictedQuantumGraphReader", Reader),
               (_ingester, "PredictedQuantumGraphReader", Reader), (_writer, "PredictedQuantumGraphReader", Reader),
               (_ingester, "Butler", ButlerStub), (_writer, "ProvenanceQuantumGraphWriter", QgWriter),
               (_supervisor, "ThreadWorkerFactory", lambda: sim), (_supervisor, "SpawnWorkerFactory", lambda: sim),
               (_communicators, "make_worker_log", lambda *a, **k: ag.Log()), (_writer, "zstandard", zs),
               (_communicators, "signal", types.SimpleNamespace(signal=lambda *a: None, SIGINT=2, SIG_IGN=1)),
               (_scanner.QuantumBackedButler, "from_predicted", staticmethod(lambda *a, **k: Qbb()))]
    loop = _supervisor.Supervisor.loop

    def scanning(self):
        sim.scanning = True
        try:
            return loop(self)
        finally:
            sim.scanning = False

    patches.append((_supervisor.Supervisor, "loop", scanning))
    saved = [(m, n, m.__dict__[n]) for m, n, _ in patches]
    real_import = repo.step
    repo.step = lambda what: sim.boom("ingest") if what == "import" else None
    try:
        for m, n, v in patches:
            setattr(m, n, v)
        yield
    finally:
        repo.step = real_import
        for m, n, v in saved:
            setattr(m, n, v)


GRAPHS = {}


def graph(n, chain):
    if (n, chain) not in GRAPHS:
        quanta = [e.quantum_a(d) for d in range(n)]
        if chain:
            quanta.append(e.quantum_b(range(n)))
        init = e.init_quanta()[:1]
        GRAPHS[n, chain] = quanta, init, e.components(quanta, init=init)
    return GRAPHS[n, chain]


def aggregate(eng, n, chain=True, scanners=1, preempt=0, delays=None, timeouts=0, faults=("none",), ends=("ok", "fail", "missing"),
              incomplete=False, writing=True, dictionary=False):
    quanta, init, master = graph(n, chain)
    how = {}
    for d in range(n):
        how[e.uid(f"a{d}")] = eng.choice(f"end{d}", ends)
    if chain:
        how[e.uid("b")] = eng.choice("endb", ends) if all(v == "ok" for v in how.values()) else "missing"
    fault = eng.choice("fault", list(all_faults(faults, quanta, scanners, writing)))
    repo = ag.Repo()
    w = World(quanta, how, init)
    sim = Sim(eng, preempt, delays, timeouts, fault)
    cfg = ag.config(n_processes=scanners, output_path="/nowhere" if writing else None, incomplete=incomplete,
                    ingest_batch_size=eng.choice("batch", (0, 10)) if faults == ("none",) else 0,
                    zstd_dict_size=100 if dictionary else 0, zstd_dict_n_inputs=2)

    def main():
        try:
            return outcome(_supervisor.aggregate_graph, "p", "b", cfg)
        except KeyboardInterrupt as err:
            return "exc", err

    with world(sim, w, master, repo):
        kind, r = outcome(sim.sched.run, main)
        if kind == "exc":
            eng.check(False, "the aggregator does not end", repr(r))
        kind, r = r
        eng.check(not sim.sched.left and not any(x.thr.error for x in sim.workers), "workers are left behind when the aggregator has ended",
                  f"{sim.sched.left} {[(x.name, x.thr.error) for x in sim.workers if x.thr.error]} {r!r}")
    if sim.happened:
        want = KeyboardInterrupt if fault[0] == "interrupt" else agg.FatalWorkerError if fault[0] != "kill" and not (
            fault[:2] == ("open", "main")) else Exception
        eng.check(kind == "exc" and isinstance(r, want), "a failure is not reported", f"{fault} {r!r}")
        eng.reach("failed")
    else:
        eng.check(kind == "ok", "aggregation failed although nothing went wrong", repr(r))
        verify(eng, sim, w, quanta, init, repo, writing and not incomplete, incomplete, how)
        eng.reach("done")
    ids = [x.quantum_id for x in sim.written if not isinstance(x, str)]
    eng.check(len(ids) == len(set(ids)), "provenance of a quantum is written twice")
    eng.check(set(repo.rows) <= {i for i, p in w.present.items() if p}, "a dataset that does not exist is ingested")


def all_faults(kinds, quanta, scanners, writing):
    names = [f"scanner-{k:03d}" for k in range(scanners)] + ["ingester"] + (["writer"] if writing else [])
    for k in kinds:
        if k == "none":
            yield ("none",)
        elif k == "open":
            yield from (("open", x) for x in [*names, "main"])
        elif k == "scan":
            yield from (("scan", q.quantum_id) for q in quanta)
        elif k == "ingest":
            yield ("ingest",)
            yield ("butler",)
        elif k == "write":
            yield ("writer",)
            yield from (("write", q.quantum_id) for q in quanta)
        elif k == "kill":
            yield from (("kill", x, i) for x in names for i in (1, 3, 5, 8))
        elif k == "interrupt":
            yield from (("interrupt", i) for i in range(1, 8))


def verify(eng, sim, w, quanta, init, repo, writing, incomplete, how):
    blocked = "b" if e.uid("b") in how and any(v != "ok" for k, v in how.items() if k != e.uid("b")) else None
    want = {}
    for q in quanta:
        i = q.quantum_id
        if blocked and i == e.uid("b"):
            want[i] = S.BLOCKED
        else:
            want[i] = S.SUCCESSFUL if how[i] == "ok" else S.FAILED
    eng.check(sorted(sim.scanned) == sorted(i for i, s in want.items() if s is not S.BLOCKED),
              "not exactly the quanta whose inputs may exist are scanned once")
    if e.uid("b") in sim.scanned:
        eng.check(sim.scanned[-1] == e.uid("b"), "a quantum is scanned before those it depends on")
    for q in init:
        want[q.quantum_id] = S.INIT
    if incomplete:
        ingest = {i for i, p in w.present.items() if p and not any(
            how[q.quantum_id] != "ok" and i in {d.dataset_id for d in e.all_outputs(q)} for q in quanta)}
        if blocked or any(v != "ok" for v in how.values()):
            eng.reach("abandoned")
    else:
        ingest = {i for i, p in w.present.items() if p}
    eng.check(set(repo.rows) == ingest and {i for _, i in repo.records} == ingest, "not exactly the existing outputs are ingested",
              f"{len(repo.rows)} {len(ingest)}")
    if not writing:
        eng.check(not sim.written, "provenance is written without being asked for")
        return
    data = {x.quantum_id: x for x in sim.written if not isinstance(x, str)}
    eng.check(set(data) == set(want), "not every quantum has an outcome in the provenance graph",
              f"{sorted(map(str, set(want) ^ set(data)))}")
    for i, s in want.items():
        eng.check(data[i].status is s, "a quantum has the wrong outcome", f"{data[i].status} {s}")
        q = w.quanta.get(i) or next(q for q in init if q.quantum_id == i)
        out = {d.dataset_id for d in e.all_outputs(q) if w.present[d.dataset_id]}
        eng.check(data[i].existing_outputs == (out if s is not S.BLOCKED else set()), "wrong existing outputs are recorded")
        if s is S.SUCCESSFUL:
            meta = unpack(sim, data[i], data[i].metadata)
            eng.check(b"who" in meta, "the metadata of a quantum is lost", repr(meta[:40]))
            if data[i].is_compressed:
                eng.reach("compressed")
    if blocked:
        eng.reach("blocked")
    eng.check(sim.opened == 1 and [x for x in sim.written if isinstance(x, str)] == ["overall", "packages", "init", "close"],
              "the provenance graph is not completed", str([x for x in sim.written if isinstance(x, str)]))
    eng.check(sim.written[-2:] == ["init", "close"], "something is written after the end")


def unpack(sim, data, block):
    if not data.is_compressed:
        return block
    return zstandard.ZstdDecompressor(zstandard.ZstdCompressionDict(sim.cdict)).decompress(block)


def cases(tier):
    t = tier == "thorough"
    d = 4 if t else 3
    cap = 3000 if t else 700
    F = ("open", "scan", "ingest", "write", "interrupt")

    def case(name, text, reach, every=500, **kw):
        order = "any order of runs" if kw.get("delays") is None else f"orders that skip up to {kw['delays']} turns"
        order += f", {kw['preempt']} preemption" if kw.get("preempt") else ""
        return Case(name, aggregate, kw, f"{text}; {order}", reach, validate_every=every, time_cap=cap)

    return [
        case("one-scanner", "3 quanta, one scanner, any endings", ("done", "blocked"), n=2, delays=d),
        case("two-scanners", "3 quanta, 2 scanners, any endings", ("done", "blocked"), n=2, scanners=2, delays=d,
             ends=("ok", "missing")),
        case("tiny", "one quantum, one scanner", ("done",), n=1, chain=False),
        case("incomplete", "3 quanta, any endings", ("done", "abandoned"), n=2, incomplete=True),
        case("no-writer", "3 quanta, any endings", ("done",), n=2, writing=False),
        case("faults", "2 quanta, a failure anywhere", ("failed",), n=1, faults=F, ends=("ok", "fail"), delays=d),
        case("faults-2", "2 quanta, 2 scanners, a failure anywhere", ("failed",), n=1, scanners=2, faults=F, ends=("ok",), delays=d - 1),
        case("kill", "one quantum, 2 scanners, a worker is killed", ("failed",), n=1, chain=False, scanners=2, faults=("kill",),
             ends=("ok",), delays=d),
        case("timeout", "one quantum, a queue times out early", ("done",), n=1, chain=False, preempt=1, timeouts=1, ends=("ok",), delays=0),
        case("preempt", "2 quanta, 2 scanners", ("done",), n=1, scanners=2, preempt=1, delays=1 if t else 0, ends=("ok",)),
        case("dictionary", "3 quanta, compression dictionary", ("done", "compressed"), n=2, dictionary=True, ends=("ok",), delays=d),
        case("dictionary-2", "3 quanta, 2 scanners, compression dictionary", ("done", "compressed"), n=2, scanners=2,
             dictionary=True, ends=("ok",), delays=d - 1),
    ]
