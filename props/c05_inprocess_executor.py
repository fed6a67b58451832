"""C05: single-process graph execution: ordering, failure containment, reports, exit codes, provenance."""

from __future__ import annotations

from lsst.daf.butler.logging import ButlerLogRecord
from lsst.pipe.base import TaskMetadata
from lsst.pipe.base import mp_graph_executor as mod
from lsst.pipe.base._status import InvalidQuantumError, RepeatableQuantumError
from lsst.pipe.base.mp_graph_executor import MPGraphExecutor, MPGraphExecutorError
from lsst.pipe.base.quantum_graph_executor import QuantumExecutor, QuantumExecutionResult
from lsst.pipe.base.quantum_reports import ExecutionStatus, QuantumReport

from symx.core import Stub, patched
from symx.runner import Case

from . import _exec_env as env

ASSUMPTIONS = [
    "the per-quantum executor and the provenance file writer are stand-ins; how each quantum ends is symbolic",
]


def _record(msg):
    return ButlerLogRecord(name="t", asctime="2025-01-01T00:00:00", message=msg, levelno=20, levelname="INFO", filename="f",
                           pathname="p", lineno=1, funcName="g", process=1, processName="x", MDC={})


class Executor(QuantumExecutor):
    def __init__(self, eng, n, edges, kinds):
        self.eng, self.n, self.edges, self.kinds = eng, n, edges, kinds
        self.order, self.plan, self.meta, self.logs, self.aborted = [], {}, {}, {}, False

    def execute(self, task_node, /, quantum, quantum_id=None, *, log_records=None):
        eng = self.eng
        k = env.IDS.index(quantum_id)
        eng.check(k not in self.plan, "a quantum was executed twice")
        eng.check(task_node.label == self.names[k] and quantum.dataId == env.DATA_IDS[k],
                  "a quantum is executed with another quantum's task or data ID")
        eng.check(not self.aborted, "a quantum was executed after an error that stops the execution")
        for a, b in self.edges:
            if b == k:
                eng.check(self.plan.get(a, "").startswith("ok"),
                          "a quantum was executed before all of its predecessors succeeded")
        self.order.append(k)
        self.plan[k] = what = eng.choice(f"kind{k}", self.kinds)
        if log_records is not None:
            log_records.append(_record(f"log of {k}"))
        if what == "repeatable":
            self.aborted = self.ff
            raise RepeatableQuantumError("again")
        if what == "invalid":
            self.aborted = True
            raise InvalidQuantumError("bad")
        if what == "error":
            self.aborted = self.ff
            raise ValueError("boom")
        self.meta[k] = TaskMetadata.from_dict({"quantum": k})
        rep = None if what == "ok-silent" else QuantumReport(quantumId=quantum_id, dataId=quantum.dataId,
                                                            taskLabel=task_node.label)
        return QuantumExecutionResult(quantum, rep, task_metadata=self.meta[k])


class Writer(Stub):
    """ProvenanceQuantumGraphWriter stand-in."""

    def __init__(self, output_path, *, exit_stack, log_on_close, predicted, **kw):
        self.log = []
        Writer.last = self
        exit_stack.callback(lambda: self.log.append(("closed",)))

    def write_quantum_provenance(self, quantum_id, metadata, logs):
        self.log.append(("quantum", env.IDS.index(quantum_id), metadata, logs and [r.message for r in logs]))

    def write_blocked_quantum_provenance(self, quantum_id):
        self.log.append(("blocked", env.IDS.index(quantum_id)))

    def write_overall_inputs(self, *a, **k):
        self.log.append(("inputs",))

    def write_packages(self, *a, **k):
        self.log.append(("packages",))

    def write_init_outputs(self, *a, **k):
        self.log.append(("init",))


def run(eng, n, kinds, fixup=0, same_task=False):
    edges = env.dag(eng, n)
    extra = []
    for c in range(fixup):
        pair = eng.choice(f"x{c}", [None] + [(i, j) for i in range(n) for j in range(n) if i != j])
        if pair:
            extra.append(pair)
    all_edges = sorted(set(edges) | set(extra))
    names = ["t"] * n if same_task else env.LABELS[:n]
    ff = bool(eng.bool("fail_fast"))
    prov = bool(eng.bool("provenance"))
    ex = Executor(eng, n, all_edges, kinds)
    ex.names, ex.ff = names, ff
    kw = {"execution_graph_fixup": env.Fixup(extra)} if fixup else {}
    gx = MPGraphExecutor(num_proc=1, timeout=3.0, quantum_executor=ex, fail_fast=ff, **kw)
    graph = env.Graph(n, edges, names=names)
    Writer.last = None
    with patched(mod, ProvenanceQuantumGraphWriter=Writer):
        err = None
        try:
            gx.execute(graph, provenance_graph_file="x.qg" if prov else None)
        except (Exception, SystemExit) as e:
            err = e
    if env.has_cycle(n, all_edges):
        eng.check(isinstance(err, MPGraphExecutorError), "a cyclic graph was accepted", repr(err))
        eng.check(not ex.plan, "quanta of a cyclic graph were executed")
        eng.reach("cycle")
        return
    report = gx.getReport()
    plan = ex.plan
    bad = {k for k in plan if not plan[k].startswith("ok")}
    blocked = set()
    for k in bad:
        blocked |= env.descendants(k, all_edges)
    # reports
    by = {}
    for r in report.quantaReports:
        ks = [k for k in range(n) if names[k] == r.taskLabel and dict(env.DATA_IDS[k].required) == r.dataId]
        eng.check(len(ks) == 1, "a report names no known quantum", repr(r))
        k = ks[0]
        eng.check(k not in by, "two reports for one quantum")
        by[k] = r
        if k in bad:
            eng.check(r.status is ExecutionStatus.FAILURE and r.exceptionInfo is not None,
                      "a failed quantum is not reported as failed", repr(r.status))
            name = {"repeatable": "RepeatableQuantumError", "invalid": "InvalidQuantumError",
                    "error": "ValueError"}[plan[k]]
            eng.check(r.exceptionInfo.className.endswith(name), "wrong exception in the report")
        elif k in plan:
            eng.check(r.status is ExecutionStatus.SUCCESS, "a successful quantum is not reported as successful")
        else:
            eng.check(k in blocked and r.status is ExecutionStatus.SKIPPED, "a quantum that never ran is not skipped",
                      repr(r.status))
    for k in bad:
        eng.check(k in by, "a failed quantum has no report")
    for k, what in plan.items():
        if what == "ok":
            eng.check(k in by, "the executor's report was dropped")
    # provenance: exactly one record per resolved quantum
    w = Writer.last
    if prov:
        eng.check(w is not None and w.log and w.log[-1] == ("closed",), "the provenance writer was not closed last")
        seen = {}
        for item in w.log:
            if item[0] in ("quantum", "blocked"):
                eng.check(item[1] not in seen, "two provenance records for one quantum")
                seen[item[1]] = item
        for k, item in seen.items():
            if item[0] == "blocked":
                eng.check(k in blocked, "a quantum that was not blocked is recorded as blocked")
            else:
                eng.check(k in plan, "a quantum that did not run is recorded as run")
                eng.check(item[2] == ex.meta.get(k) and item[3] == [f"log of {k}"],
                          "provenance holds another quantum's metadata or logs")
        done = {k for k in plan if plan[k].startswith("ok")}
        eng.check(done <= set(seen), "a successful quantum has no provenance record")
    stopped = {k for k in bad if ff or plan[k] == "invalid"}
    if not bad:
        eng.check(err is None, "a successful run raised", repr(err))
        eng.check(set(plan) == set(range(n)), "a quantum was never run")
        eng.check(report.status is ExecutionStatus.SUCCESS and report.exceptionInfo is None, "report of a successful run")
        if prov:
            eng.check(set(seen) == set(range(n)), "a quantum has no provenance record")
            eng.check([i[0] for i in w.log[-4:-1]] == ["inputs", "packages", "init"] or
                      {i[0] for i in w.log} >= {"inputs", "packages", "init"}, "final provenance records are missing")
        eng.reach("success")
        return
    eng.check(report.status is ExecutionStatus.FAILURE, "overall status is not failure", str(report.status))
    eng.check(err is not None, "a failed run did not raise")
    if not stopped:
        eng.check(isinstance(err, MPGraphExecutorError), "unexpected exception", repr(err))
        eng.check(report.exceptionInfo is not None, "the report does not record the exception")
        eng.check(set(plan) == set(range(n)) - blocked, "an independent quantum was not run after a failure",
                  f"{plan} {blocked}")
        for k in blocked:
            eng.check(k in by, "a skipped quantum has no report")
        if prov:
            eng.check(set(seen) == set(range(n)), "a quantum has no provenance record")
        eng.reach("contained")
    else:
        eng.check(len(stopped) == 1, "execution continued after an error that stops it")
        k = stopped.pop()
        eng.check(ex.order[-1] == k, "execution continued after an error that stops it")
        want = None
        if plan[k] == "invalid":
            want = InvalidQuantumError.EXIT_CODE
        elif plan[k] == "repeatable":
            want = RepeatableQuantumError.EXIT_CODE
        if want is None:
            eng.check(isinstance(err, MPGraphExecutorError), "unexpected exception", repr(err))
        else:
            eng.check(isinstance(err, SystemExit) and err.code == want, "wrong exit code", repr(err))
            eng.reach("exit")
        eng.reach("aborted")


def cases(tier):
    full = ("ok", "ok-silent", "repeatable", "invalid", "error")
    r = ("success", "contained", "aborted")
    out = [
        Case("n2-all", run, dict(n=2, kinds=full), "2 quanta, all endings, fail-fast or not, provenance or not",
             r + ("exit",)),
        Case("n3-all", run, dict(n=3, kinds=("ok", "repeatable", "invalid", "error")), "all 3-node DAGs", r + ("exit",)),
        Case("n3-fixup", run, dict(n=3, kinds=("ok", "error"), fixup=1), "3 nodes and one extra ordering edge",
             r + ("cycle",)),
        Case("n3-same-task", run, dict(n=3, kinds=("ok", "error"), same_task=True), "3 quanta of one task", r),
        Case("n4", run, dict(n=4, kinds=("ok", "error")), "all 4-node DAGs", r, validate_every=100),
    ]
    if tier == "thorough":
        out += [
            Case("n4-all", run, dict(n=4, kinds=("ok", "repeatable", "invalid", "error")), "4 quanta, all endings", r,
                 time_cap=3000, validate_every=500),
            Case("n4-fixup2", run, dict(n=4, kinds=("ok", "error"), fixup=2), "4 nodes, two extra edges",
                 r + ("cycle",), time_cap=3000, validate_every=500),
        ]
    return out
