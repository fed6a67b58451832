"""C04: multiprocess graph execution: ordering, concurrency, failure containment."""

from __future__ import annotations

from lsst.pipe.base import mp_graph_executor as mod
from lsst.pipe.base._status import InvalidQuantumError, RepeatableQuantumError
from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError, MPTimeoutError
from lsst.pipe.base.quantum_graph_executor import QuantumExecutor, QuantumExecutionResult
from lsst.pipe.base.quantum_reports import ExecutionStatus, QuantumReport

from symx.core import outcome, patched
from symx.runner import Case

from . import _exec_env as env

ASSUMPTIONS = [
    "processes, pipes and the clock are stand-ins: when a worker ends, how it ends and whether it obeys SIGTERM are "
    "symbolic; the worker's entry point is the real one, run in this process",
    "clock advances only while the scheduler sleeps",
]

_CURRENT = None


def _current():
    return _CURRENT


class Executor(QuantumExecutor):
    """Single-quantum executor stand-in: does what the schedule says."""

    def __init__(self, world):
        self.world = world

    def __reduce__(self):
        return (_current, ())

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        w = self.world
        k = env.IDS.index(quantum_id)
        w.eng.check(task_node.label == env.LABELS[k] and quantum.dataId == env.DATA_IDS[k],
                    "a worker runs a quantum with another quantum's task or data ID")
        w.eng.check(w.threads_off, "implicit threading is not disabled in the worker")
        what = w.plan[k]
        if what == "repeatable":
            raise RepeatableQuantumError("again")
        if what == "invalid":
            raise InvalidQuantumError("bad")
        if what == "error":
            raise ValueError("boom")
        rep = None if what == "ok-silent" else QuantumReport(quantumId=quantum_id, dataId=quantum.dataId,
                                                            taskLabel=task_node.label)
        return QuantumExecutionResult(quantum, rep)


class World:
    def __init__(self, eng, n, edges, num_proc, kinds, polls):
        self.eng, self.n, self.edges, self.num_proc, self.kinds, self.polls = eng, n, edges, num_proc, kinds, polls
        self.plan, self.procs, self.count, self.seen_dead, self.obeys = {}, {}, {}, {}, {}
        self.threads_off = False
        self.preds = {k: {a for a, b in edges if b == k} for k in range(n)}
        self.fatal = False

    def disable_threads(self):
        self.threads_off = True

    def which(self, p):
        for a in p.args:
            if a in env.IDS:
                return env.IDS.index(a)
        raise AssertionError("worker was not given a quantum ID")

    def process_started(self, p):
        eng = self.eng
        k = self.which(p)
        eng.check(k not in self.plan, "a quantum was started twice")
        eng.check(all(self.seen_dead.get(x) == 0 for x in self.preds[k]),
                  "a quantum was started before all of its predecessors succeeded")
        eng.check(not self.fatal, "a quantum was started after an error that stops the execution")
        self.plan[k] = eng.choice(f"kind{k}", self.kinds)
        self.procs[k] = p
        self.count[k] = 0
        alive = [x for x in self.plan if x not in self.seen_dead]
        eng.check(len(alive) <= self.num_proc, "more workers than requested are running", str(len(alive)))

    def finish(self, k):
        p = self.procs[k]
        if self.plan[k] == "signal":
            p.code = -11
        else:
            self.threads_off = False
            p.run_child()

    def poll(self, p):
        k = self.which(p)
        self.count[k] += 1
        if self.plan[k] != "hang" and (self.count[k] > self.polls or self.eng.bool(f"done{k}_{self.count[k]}")):
            self.finish(k)
        if p.code is not None:
            self.note(k)

    def wait(self, p):
        k = self.which(p)
        if self.plan[k] == "hang":
            self.eng.check(False, "the executor waits for a worker that never ends")
        self.finish(k)
        self.note(k)

    def note(self, k):
        self.seen_dead[k] = self.procs[k].code

    def signalled(self, p, sig):
        k = self.which(p)
        if sig == 9:
            p.code = -9
        elif self.plan[k] == "hang":
            if k not in self.obeys:
                self.obeys[k] = bool(self.eng.bool(f"obeys{k}"))
            if self.obeys[k]:
                p.code = -15
            elif len(p.signals) > 6:
                self.eng.check(False, "a worker that ignores SIGTERM is never killed")
        elif self.eng.bool(f"race{k}"):
            self.finish(k)  # it ended on its own just before the signal
        else:
            p.code = -15
        if p.code is not None:
            self.note(k)


def run(eng, n, num_proc, kinds, polls, fail_fast, timeout=None, fixup=0):
    global _CURRENT
    edges = env.dag(eng, n)
    extra = []
    if fixup:
        for c in range(fixup):
            pair = eng.choice(f"x{c}", [None] + [(i, j) for i in range(n) for j in range(n) if i != j])
            if pair:
                extra.append(pair)
    all_edges = sorted(set(edges) | set(extra))
    ff = eng.bool("fail_fast") if fail_fast is None else fail_fast
    ff = bool(ff)
    limit = eng.real("timeout", 0.5, 4.5) if timeout is None else timeout
    w = World(eng, n, all_edges, num_proc, kinds, polls)
    ex = Executor(w)
    _CURRENT = ex
    graph = env.Graph(n, edges)

    def on_sleep(dt):
        if any(p.signals for p in w.procs.values()):
            return
        alive = [x for x in w.plan if x not in w.seen_dead]
        ready = [k for k in range(n) if k not in w.plan and all(w.seen_dead.get(x) == 0 for x in w.preds[k])]
        eng.check(not (ready and len(alive) < num_proc), "a worker slot stays idle although a quantum is ready")

    clock = env.Clock(eng, on_sleep)
    if fixup:
        graph_ex = MPGraphExecutor(num_proc=num_proc, timeout=limit, quantum_executor=ex, fail_fast=ff,
                                   execution_graph_fixup=env.Fixup(extra))
    else:
        graph_ex = MPGraphExecutor(num_proc=num_proc, timeout=limit, quantum_executor=ex, fail_fast=ff)
    with patched(mod, multiprocessing=env.MP(w), time=clock, disable_implicit_threading=w.disable_threads):
        kind, err = outcome(graph_ex.execute, graph)
    report = graph_ex.getReport() if not env.has_cycle(n, all_edges) else None
    if report is None:
        eng.check(kind == "exc" and isinstance(err, MPGraphExecutorError), "a cyclic graph was accepted", repr(err))
        eng.check(not w.plan, "quanta of a cyclic graph were started")
        eng.reach("cycle")
        return
    # ---- what must have happened
    codes = {k: p.code for k, p in w.procs.items()}
    timed_out = {k for k in codes if w.procs[k].signals and codes[k] is not None and codes[k] < 0}
    bad = {k for k in codes if codes[k] != 0}
    aborting = {k for k in bad if codes[k] is not None and (ff or codes[k] == InvalidQuantumError.EXIT_CODE)}
    blocked = set()
    for k in bad:
        blocked |= env.descendants(k, all_edges)
    for k, c in codes.items():
        eng.check(c is not None, "a worker is still running when execution ends")
    eng.check((kind == "exc") == bool(bad), "success/failure of the whole run is wrong", f"{codes} {err!r}")
    if kind == "exc":
        eng.check(isinstance(err, MPGraphExecutorError), "unexpected exception type", repr(err))
        eng.check(report.exceptionInfo is not None, "the report does not record the exception")
    by_id = {}
    for r in report.quantaReports:
        eng.check(r.quantumId in env.IDS[:n], "a report has no (or an unknown) quantum ID", repr(r.quantumId))
        k = env.IDS.index(r.quantumId)
        eng.check(k not in by_id, "two reports for one quantum")
        by_id[k] = r
        eng.check(r.taskLabel == env.LABELS[k] and r.dataId == dict(env.DATA_IDS[k].required),
                  "a report names the wrong task or data ID")
        if k in codes:
            eng.check(r.exitCode == codes[k], "reported exit code differs from the process exit code",
                      f"{r.exitCode} {codes[k]}")
            if codes[k] == 0:
                want = ExecutionStatus.SUCCESS
            elif k in timed_out:
                want = ExecutionStatus.TIMEOUT
            else:
                want = ExecutionStatus.FAILURE
            eng.check(r.status == want, "wrong quantum status", f"{r.status} want {want}")
            if want is ExecutionStatus.FAILURE and w.plan[k] in ("error", "repeatable", "invalid"):
                eng.check(r.exceptionInfo is not None, "the quantum report does not record the exception")
                expect = {"error": 1, "invalid": InvalidQuantumError.EXIT_CODE,
                          "repeatable": RepeatableQuantumError.EXIT_CODE if ff else 1}[w.plan[k]]
                eng.check(codes[k] == expect, "the error's exit code is lost", f"{w.plan[k]} {codes[k]}")
        else:
            eng.check(k in blocked and r.status is ExecutionStatus.SKIPPED, "a quantum that never ran is not skipped",
                      repr(r.status))
    if not bad:
        eng.check(set(codes) == set(range(n)), "a quantum was never run", str(codes))
        eng.check(report.status is ExecutionStatus.SUCCESS and err is None, "report status of a successful run")
        eng.check(set(by_id) == set(range(n)), "a quantum has no report")
        eng.reach("success")
        return
    seen_bad = {k for k in by_id if by_id[k].status in (ExecutionStatus.FAILURE, ExecutionStatus.TIMEOUT)}
    if any(by_id[k].status is ExecutionStatus.FAILURE for k in seen_bad):
        eng.check(report.status is ExecutionStatus.FAILURE, "overall status is not failure", str(report.status))
    else:
        eng.check(report.status is ExecutionStatus.TIMEOUT, "overall status is not timeout", str(report.status))
        eng.reach("timeout")
    only_timeouts = bool(seen_bad) and all(by_id[k].status is ExecutionStatus.TIMEOUT for k in seen_bad)
    if isinstance(err, MPTimeoutError):
        eng.check(any(by_id[k].status is ExecutionStatus.TIMEOUT for k in seen_bad), "timeout error without a timeout")
    if not aborting:
        if isinstance(err, MPTimeoutError):
            eng.check(only_timeouts, "timeout error although something else failed")
        if only_timeouts and not blocked:
            eng.check(isinstance(err, MPTimeoutError), "timeouts are not reported as such", repr(err))
        eng.check(set(codes) == set(range(n)) - blocked, "an independent quantum was not run after a failure",
                  f"{codes} blocked={blocked}")
        eng.check(set(by_id) == set(range(n)), "a quantum has no report", str(set(by_id)))
        eng.reach("contained")
    else:
        eng.reach("aborted")


def stop_only_late(eng, polls):
    """A worker is stopped only after its time limit, and always once it is past it."""
    global _CURRENT
    limit = eng.real("timeout", 0.25, 5.5)
    w = World(eng, 1, [], 2, ("ok", "hang", "error"), polls)
    _CURRENT = Executor(w)
    clock = env.Clock(eng)
    at = {}
    orig = w.signalled

    def signalled(p, sig):
        at.setdefault("t", clock.now)
        orig(p, sig)

    w.signalled = signalled
    ex = MPGraphExecutor(num_proc=2, timeout=limit, quantum_executor=_CURRENT)
    with patched(mod, multiprocessing=env.MP(w), time=clock, disable_implicit_threading=w.disable_threads):
        outcome(ex.execute, env.Graph(1, []))
    p = w.procs[0]
    if p.signals:
        eng.check(at["t"] - 1000.0 > limit, "a worker was stopped before its time limit")
        eng.reach("stopped")
    else:
        # it was polled at t = 1, 2, ... while alive: none of those may be past the limit
        late = clock.now - 1000.0 - 1
        eng.check(late <= limit, "a worker ran past its time limit without being stopped", str(late))
        eng.reach("in-time")


def serial_only(eng):
    global _CURRENT
    w = World(eng, 2, [(0, 1)], 2, ("ok",), 1)
    _CURRENT = Executor(w)
    ex = MPGraphExecutor(num_proc=2, timeout=3.0, quantum_executor=_CURRENT)
    with patched(mod, multiprocessing=env.MP(w), time=env.Clock(eng), disable_implicit_threading=w.disable_threads):
        kind, err = outcome(ex.execute, env.Graph(2, [(0, 1)], env.SerialOnly))
    eng.check(kind == "exc" and isinstance(err, MPGraphExecutorError) and not w.plan,
              "a task that cannot be multiprocessed was run in a worker")


def cases(tier):
    full = ("ok", "ok-silent", "repeatable", "invalid", "error", "signal", "hang")
    r = ("success", "contained", "aborted")
    out = [
        Case("n1-all", run, dict(n=1, num_proc=2, kinds=full, polls=2, fail_fast=None),
             "1 quantum, all endings, all time limits", r + ("timeout",)),
        Case("n2-all", run, dict(n=2, num_proc=2, kinds=full, polls=1, fail_fast=None),
             "2 quanta, all endings, all time limits 0.5..4.5 ticks", r + ("timeout",)),
        Case("n3-p2", run, dict(n=3, num_proc=2, kinds=("ok", "error"), polls=1, fail_fast=None, timeout=100.0),
             "all 3-node DAGs, 2 workers", r),
        Case("n3-p3", run, dict(n=3, num_proc=3, kinds=("ok", "invalid", "signal"), polls=1, fail_fast=None, timeout=100.0),
             "all 3-node DAGs, 3 workers", r),
        Case("n3-hang", run, dict(n=3, num_proc=2, kinds=("ok", "hang"), polls=0, fail_fast=None, timeout=1.5),
             "all 3-node DAGs, hanging workers", r),
        Case("n3-fixup", run, dict(n=3, num_proc=2, kinds=("ok", "error"), polls=0, fail_fast=None, timeout=100.0, fixup=1),
             "3 nodes plus one extra ordering edge in any direction", r + ("cycle",)),
        Case("n4-p2", run, dict(n=4, num_proc=2, kinds=("ok", "error"), polls=0, fail_fast=False, timeout=100.0),
             "all 4-node DAGs, 2 workers, keep going", ("success", "contained")),
        Case("limit", stop_only_late, dict(polls=4), "1 worker, any time limit 0.25..5.5 ticks, ends at any tick",
             ("stopped", "in-time")),
        Case("serial-only", serial_only, {}, "task that forbids multiprocessing"),
    ]
    if tier == "thorough":
        out += [
            Case("n3-all", run, dict(n=3, num_proc=2, kinds=("ok", "repeatable", "invalid", "error", "signal", "hang"),
                                     polls=1, fail_fast=None, timeout=1.5), "3 quanta, all endings", r, time_cap=3000,
                 validate_every=500),
            Case("n4-p3", run, dict(n=4, num_proc=3, kinds=("ok", "error"), polls=1, fail_fast=None, timeout=100.0),
                 "4 quanta, 3 workers", r, time_cap=3000, validate_every=500),
            Case("n3-fixup2", run, dict(n=3, num_proc=2, kinds=("ok", "error"), polls=1, fail_fast=None, timeout=100.0,
                                        fixup=2), "two extra edges", r + ("cycle",), time_cap=3000, validate_every=500),
        ]
    return out
