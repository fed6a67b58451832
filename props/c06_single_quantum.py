"""C06: executing one quantum: skip, clobber, missing inputs, failures, what gets written."""

from __future__ import annotations

import types
import uuid

from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords
from lsst.pipe.base import (AlgorithmError, AnnotatedPartialOutputsError, InvalidQuantumError, NoWorkFound,
                            RepeatableQuantumError, TaskFactory)
from lsst.pipe.base import log_capture
from lsst.pipe.base._status import QuantumSuccessCaveats
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor

from symx.core import outcome, patched
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = [
    "the butler is a stand-in whose dataset existence is symbolic; the task's runQuantum follows a symbolic script",
    "log records themselves (Python logging) are not compared, only their storage and extra provenance",
]
NODES = {1: te.node(te.Task1, "one"), 2: te.node(te.Task2, "two"), 3: te.node(te.Task3, "three"), "nolog": te.node(te.Task1, "one", log=False)}
QID = uuid.UUID(int=77)
PREV = uuid.UUID(int=78)


class Boom(Exception):
    pass


class _Alg(AlgorithmError):
    @property
    def metadata(self):
        return {}


class Factory(TaskFactory):
    def __init__(self, fail):
        self.fail = fail

    def makeTask(self, task_node, /, butler, initInputRefs):
        if self.fail:
            raise Boom("constructor")
        return super().makeTask(task_node, butler, initInputRefs)


def run(eng, which, scripts, options=(), n_a=2, n_y=1, outputs="none", inputs="all", records=False, butler="factory"):
    task_node, graph = NODES[which]
    minimum = 2 if which == 2 else 1
    base = te.quantum_for(task_node, graph, n_a=n_a, n_y=n_y)
    in_a, in_p = list(base.inputs["in_a"]), list(base.inputs["in_p"])
    assumed, recs = set(), None
    if records:
        assumed = {r.id for i, r in enumerate(in_a) if eng.bool(f"rec{i}")}
        first = {i for k, i in enumerate(sorted(assumed)) if eng.bool(f"first{k}")}
        recs = {"ds": types.SimpleNamespace(records={i: [] for i in first}),
                "ds2": types.SimpleNamespace(records={i: [] for i in assumed - first})}
    q = te.quantum_for(task_node, graph, n_a=n_a, n_y=n_y, records=recs)
    outs = [r for refs in q.outputs.values() for r in refs]
    [meta_ref] = q.outputs[task_node.metadata_output.dataset_type_name]
    log_ref = q.outputs[task_node.log_output.dataset_type_name][0] if task_node.log_output else None
    exists = {}
    for i, r in enumerate(outs):
        exists[r.id] = bool(eng.bool(f"out{i}")) if outputs == "any" else False
    for i, r in enumerate(in_a + in_p):
        exists[r.id] = bool(eng.bool(f"in{i}")) if inputs == "any" else True
    in_chain = butler == "full" and bool(eng.bool("in_chain"))
    if butler == "full":
        store = te.FullStore(lambda ref: exists[ref.id], chain=("other", te.RUN) if in_chain else ("other",))
    else:
        store = te.Store(lambda ref: exists[ref.id])
    if log_ref is not None:
        old = ButlerLogRecords([ButlerLogRecord(
            name="t", asctime="2025-01-01T00:00:00", message="old message", levelno=20, levelname="INFO", filename="f",
            pathname="p", lineno=1, funcName="g", process=1, processName="x", MDC={})])
        old.extra = {"exception": {"type_name": "E1", "message": "m", "metadata": {}},
                     "previous_attempts": [{"exception": {"type_name": "E0", "message": "m", "metadata": {}}}]}
        store.objects[log_ref.id] = old

    def opt(name, default):
        return bool(eng.bool(name)) if name in options else default

    skip, clobber = opt("skip", False), opt("clobber", False)
    opt_skip = skip
    assume_new, raise_partial = opt("assume_new", False), opt("raise_partial", True)
    full = opt("second", False)
    script = eng.choice("script", scripts)
    seen = {"put": []}

    def run_quantum(task, butlerQC, inputRefs, outputRefs):
        eng.check("inputs" not in seen, "the task ran twice")
        seen["inputs"] = list(inputRefs.a)
        seen["run"] = task_node.label + str(butlerQC.quantum.dataId["detector"])
        seen["p"] = getattr(inputRefs, "p", None)
        seen["outputs"] = [outputRefs.x, *outputRefs.y]
        seen["allowed"] = {x[2] for x in butlerQC.allOutputs}
        for i, r in enumerate(seen["outputs"]):
            if script == "ok-all" or (script != "nowork-empty" and eng.bool(f"put{seen['run']}_{i}")):
                butlerQC.put({"v": 1}, r)
                seen["put"].append(r.id)
        if script in ("nowork", "nowork-empty"):
            raise NoWorkFound("nothing")
        if script in ("partial", "partial-bare"):
            err = AnnotatedPartialOutputsError("partial")
            seen["error"] = err
            if script == "partial-bare":
                raise err
            seen["error"] = Boom("inner")
            raise err from seen["error"]
        if script == "error":
            seen["error"] = Boom("task")
            raise seen["error"]
        if script == "repeatable":
            seen["error"] = RepeatableQuantumError("again")
            raise seen["error"]

    factory = Factory(script == "ctor")
    where = dict(butler=None, limited_butler_factory=lambda quantum: store)
    if butler == "limited":
        where = dict(butler=store)
    elif butler == "full":
        where = dict(butler=store, skip_existing_in=eng.choice("skip_in", (None, "chain", te.RUN, ["other"])))
        skip = skip or where["skip_existing_in"] == te.RUN or (where["skip_existing_in"] == "chain" and in_chain)
    ex = SingleQuantumExecutor(
        task_factory=factory, skip_existing=opt_skip, clobber_outputs=clobber, assume_no_existing_outputs=assume_new,
        raise_on_partial_outputs=raise_partial, job_metadata={"jobkey": 3}, **where)
    te.Task1.script = te.Task2.script = te.Task3.script = staticmethod(run_quantum)
    with patched(log_capture, TemporaryForIngest=te.Temporary):
        kind, r = outcome(ex.execute, task_node, q, quantum_id=QID)
    # ---------------------------------------------------------------- oracle
    eng.check(store.closed == (1 if butler == "factory" else 0),
              "the butler is not closed exactly when it was made for this quantum")
    puts = [x for x in store.log if x[0] == "put"]
    prunes = [x for x in store.log if x[0] == "prune"]
    put_ids = [x[1].id for x in puts]
    eng.check(len(put_ids) == len(set(put_ids)), "a dataset was written twice")
    there = [o for o in outs if exists[o.id]]
    if assume_new:
        eng.check(not prunes and not (store.checked & {o.id for o in outs}),
                  "outputs were looked for although none can exist")
        there = []
    elif skip and exists[meta_ref.id]:
        eng.check(kind == "ok" and r.skipped_existing is True, "a quantum that already succeeded was not skipped", repr(r))
        eng.check("inputs" not in seen and not puts and not prunes, "skipping a quantum has side effects")
        eng.check(r[1] is not None and r[1].quantumId == QID, "the skipped quantum has no report")
        eng.reach("skipped")
        return
    elif there and not clobber:
        eng.check(kind == "exc" and isinstance(r, RuntimeError), "outputs in the way were not reported", repr(r))
        eng.check("inputs" not in seen and not puts and not prunes, "a refused quantum has side effects")
        eng.reach("in-the-way")
        return
    elif there:
        eng.check(len(prunes) == 1 and len(prunes[0][1]) == len(set(prunes[0][1]))
                  and set(prunes[0][1]) == set(there), "clobbering does not remove exactly the existing outputs",
                  str(prunes))
        eng.check(store.log.index(prunes[0]) < min([store.log.index(x) for x in puts], default=10**9),
                  "something was written before the old outputs were removed")
        eng.check(prunes[0][2] == dict(disassociate=True, unstore=True, purge=True),
                  "existing outputs are not fully removed", str(prunes[0][2]))
        eng.reach("clobbered")
    else:
        eng.check(not prunes, "something was removed although no output was in the way")
    # inputs
    left_a = [x for x in in_a if exists[x.id] or x.id in assumed]
    left_p = [x for x in in_p if exists[x.id]]
    changed = len(left_a) + len(left_p) != len(in_a) + len(in_p)
    if script == "ctor" and not (changed and (len(left_a) < minimum or len(left_p) < minimum - 1)):
        eng.check(kind == "exc" and isinstance(r, Boom), "the error of the task constructor is masked", repr(r))
        failed_log(eng, store, puts, log_ref, meta_ref, "Boom", exists, assume_new)
        eng.reach("ctor")
        return
    if changed and len(left_a) < minimum:
        eng.check(kind == "ok" and r.adjusted_no_work is True and not r.skipped_existing,
                  "a quantum without enough inputs is not treated as 'no work'", repr(r))
        eng.check("inputs" not in seen, "a quantum without enough inputs was run")
        eng.check([x[1].id for x in puts if x[1] != log_ref] == [meta_ref.id],
                  "a no-work quantum must write exactly its metadata")
        m = store.objects[meta_ref.id]
        eng.check(m["quantum"]["caveats"] == QuantumSuccessCaveats.from_adjust_quantum_no_work().value,
                  "a no-work quantum has the wrong caveats")
        eng.check(r.task_metadata is m, "the result carries other metadata than was written")
        eng.check("jobkey" in m["job"], "job metadata is missing")
        ok_log(eng, store, puts, log_ref, exists, assume_new)
        eng.reach("no-work")
        return
    if changed and len(left_p) < minimum - 1:
        eng.check(kind == "exc" and isinstance(r, FileNotFoundError), "a missing required prerequisite is not an error",
                  repr(r))
        eng.check("inputs" not in seen and meta_ref.id not in put_ids, "quantum ran without its prerequisite")
        eng.reach("no-prereq")
        return
    eng.check("inputs" in seen, "the task was not run", repr(r))
    eng.check(len(seen["inputs"]) == len(left_a) and set(seen["inputs"]) == set(left_a), "the task does not see exactly the existing inputs",
              f"{len(seen['inputs'])} {len(left_a)}")
    eng.check(seen["p"] == (left_p[0] if left_p else None), "the task sees a wrong prerequisite input")
    fails = script in ("error", "repeatable") or (script.startswith("partial") and raise_partial)
    data = [o for o in outs if o not in (meta_ref, log_ref)]
    if which == 3 and changed:
        have = {x.dataId["exposure"] for x in left_a}
        data = [o for o in data if o.datasetType.name != "out_y" or o.dataId["exposure"] in have]
        eng.reach("outputs-dropped")
    eng.check(set(seen["outputs"]) == set(data) and seen["allowed"] == {o.id for o in data},
              "the task is not given exactly the outputs it is to make")
    n_data = len(data)
    if fails:
        eng.check(kind == "exc" and r is seen["error"], "the task's own error does not reach the caller", repr(r))
        failed_log(eng, store, puts, log_ref, meta_ref, type(seen["error"]).__name__, exists, assume_new, seen["put"])
        eng.reach("failed")
        return
    eng.check(kind == "ok" and not r.skipped_existing and not r.adjusted_no_work, "a successful quantum raised", repr(r))
    eng.check(put_ids.count(meta_ref.id) == 1, "metadata of a successful quantum was not written")
    eng.check(set(put_ids) - {meta_ref.id} - ({log_ref.id} if log_ref else set()) == set(seen["put"]),
              "something other than the task's outputs was written")
    eng.check(all(put_ids.index(i) < put_ids.index(meta_ref.id) for i in seen["put"]),
              "metadata was written before the outputs")
    m = store.objects[meta_ref.id]
    eng.check(r.task_metadata is m, "the result carries other metadata than was written")
    want = QuantumSuccessCaveats.NO_CAVEATS
    if not seen["put"]:
        want |= QuantumSuccessCaveats.ALL_OUTPUTS_MISSING
    if len(seen["put"]) < n_data:
        want |= QuantumSuccessCaveats.ANY_OUTPUTS_MISSING
    if script.startswith("nowork"):
        want |= QuantumSuccessCaveats.NO_WORK
    if script.startswith("partial"):
        want |= QuantumSuccessCaveats.PARTIAL_OUTPUTS_ERROR
    eng.check(m["quantum"]["caveats"] == want.value, "wrong success caveats", f"{m['quantum']['caveats']} {want.value}")
    got = m["quantum"].getArray("outputs") if "outputs" in m["quantum"] else None
    eng.check(got is not None, "metadata does not list the outputs")
    eng.check(sorted(got) == sorted(str(i) for i in seen["put"]), "metadata lists the wrong outputs", str(got))
    eng.check(m["job"]["jobkey"] == 3 and task_node.label in m, "task or job metadata is missing")
    eng.check(r[1] is not None and r[1].quantumId == QID and r[1].taskLabel == task_node.label, "wrong report")
    ok_log(eng, store, puts, log_ref, exists, assume_new)
    if full:
        # a second quantum in the same process remembers the first one
        q2 = te.quantum_for(task_node, graph, n_a=n_a, n_y=n_y, detector=1)
        store2 = te.Store(lambda ref: ref.datasetType.name.startswith("in_"))
        ex._limited_butler_factory = lambda quantum: store2
        seen.clear()
        seen["put"] = []
        kind, r = outcome(ex.execute, task_node, q2, quantum_id=PREV)
        eng.check(kind == "ok", "second quantum failed", repr(r))
        log2 = [x for x in store2.log if x[0] == "put" and x[1].datasetType.name.endswith("_log")][0][2]
        eng.check([str(u) for u in log2.extra["previous_process_quanta"]] == [str(QID)],
                  "the log does not name the quanta run before in this process")
        eng.reach("second")
    eng.reach("succeeded")


def the_log(eng, store, puts, log_ref, exists, assume_new):
    if log_ref is None:
        return None
    logs = [x for x in puts if x[1] == log_ref]
    eng.check(len(logs) == 1, "the log was not written exactly once", str(len(logs)))
    extra = logs[0][2].extra or {}
    prev = [p["exception"]["type_name"] for p in extra.get("previous_attempts", [])]
    want = ["E0", "E1"] if exists[log_ref.id] and not assume_new else []
    eng.check(prev == want, "the log does not carry the previous attempts in order", str(prev))
    if want:
        old = [x["message"] for x in extra["previous_attempts"][-1].get("logs", [])]
        eng.check(old == ["old message"], "the log does not carry the records of the previous attempt", str(old))
    return extra


def ok_log(eng, store, puts, log_ref, exists, assume_new):
    extra = the_log(eng, store, puts, log_ref, exists, assume_new)
    if extra is not None:
        eng.check(extra.get("exception") is None and extra.get("metadata") is None,
                  "the log of a success holds failure information")


def failed_log(eng, store, puts, log_ref, meta_ref, error, exists, assume_new, outputs=None):
    eng.check(meta_ref.id not in [x[1].id for x in puts], "metadata was written for a failed quantum")
    extra = the_log(eng, store, puts, log_ref, exists, assume_new)
    if extra is not None:
        eng.check(extra.get("exception") and extra["exception"]["type_name"].endswith(error),
                  "the log of a failure does not record the exception", str(extra.get("exception")))
        if outputs is not None:
            eng.check(extra.get("metadata") is not None, "the log of a failure does not record the metadata")


def cases(tier):
    scripts = ("ok-all", "ok", "nowork", "nowork-empty", "partial", "partial-bare", "error", "repeatable", "ctor")
    out = [
        Case("existing", run, dict(which=1, scripts=("ok-all", "error"), outputs="any",
                                   options=("skip", "clobber", "assume_new")),
             "any subset of 4 outputs present, every option", ("skipped", "in-the-way", "clobbered", "succeeded", "failed")),
        Case("existing-nolog", run, dict(which="nolog", scripts=("ok-all", "error"), outputs="any", n_y=2,
                                         options=("skip", "clobber", "assume_new")),
             "same without log dataset", ("skipped", "in-the-way", "clobbered", "succeeded")),
        Case("existing-scripts", run, dict(which=1, scripts=scripts, outputs="any", options=("clobber",)),
             "any subset of outputs present, every ending", ("clobbered", "ctor")),
        Case("scripts", run, dict(which=1, scripts=scripts, options=("raise_partial", "second")),
             "every ending, any subset of outputs written", ("succeeded", "failed", "ctor", "second")),
        Case("scripts-nolog", run, dict(which="nolog", scripts=scripts, options=("raise_partial",)),
             "every ending, no log dataset", ("succeeded", "failed", "ctor")),
        Case("inputs-min1", run, dict(which=1, scripts=("ok-all", "error", "ctor"), inputs="any", n_a=3),
             "any subset of 3+1 inputs present", ("succeeded", "no-work")),
        Case("inputs-min2", run, dict(which=2, scripts=("ok-all", "ctor"), inputs="any", n_a=3),
             "minimum 2, required prerequisite", ("succeeded", "no-work", "no-prereq")),
        Case("inputs-records", run, dict(which=1, scripts=("ok-all",), inputs="any", n_a=2, records=True),
             "inputs with and without datastore records", ("succeeded", "no-work")),
        Case("inputs-adjust", run, dict(which=3, scripts=("ok-all", "ok", "error"), inputs="any", n_a=2, n_y=2),
             "the task drops outputs for missing inputs", ("succeeded", "no-work", "outputs-dropped")),
        Case("inputs-none", run, dict(which=1, scripts=("ok-all",), inputs="any", n_a=1), "one input",
             ("succeeded", "no-work")),
    ]
    out += [
        Case("full-existing", run, dict(which=1, scripts=("ok-all", "error"), outputs="any", n_y=1, butler="full",
                                        options=("skip", "clobber")),
             "full butler (log streamed to a file), skipping by collection", ("skipped", "in-the-way", "clobbered",
                                                                              "succeeded", "failed"), validate_every=100),
        Case("full-scripts", run, dict(which=1, scripts=scripts, butler="full", options=("raise_partial",)),
             "full butler, every ending", ("succeeded", "failed", "ctor")),
        Case("limited-scripts", run, dict(which=1, scripts=scripts, butler="limited", options=("raise_partial",)),
             "caller's limited butler, every ending", ("succeeded", "failed", "ctor")),
    ]
    if tier == "thorough":
        out += [
            Case("everything", run, dict(which=1, scripts=scripts, outputs="any", inputs="any", n_a=2,
                                         options=("skip", "clobber", "assume_new", "raise_partial")),
                 "all of the above together", ("succeeded",), time_cap=3000, validate_every=500),
            Case("inputs-min2-4", run, dict(which=2, scripts=("ok-all", "error"), inputs="any", n_a=4, records=True),
                 "4 inputs", ("succeeded",), time_cap=3000, validate_every=500),
        ]
    return out
