"""C27: the provenance recorded for a quantum says what really happened to it."""

from __future__ import annotations

import uuid

from lsst.daf.butler.logging import ButlerLogRecord, ButlerLogRecords
from lsst.pipe.base import AnnotatedPartialOutputsError, NoWorkFound, QuantumAttemptStatus, TaskFactory
from lsst.pipe.base import automatic_connection_constants as acc
from lsst.pipe.base import log_capture
from lsst.pipe.base._status import QuantumSuccessCaveats
from lsst.pipe.base._task_metadata import TaskMetadata
from lsst.pipe.base.quantum_graph import PredictedDatasetModel, PredictedQuantumDatasetsModel
from lsst.pipe.base.quantum_graph import _provenance as prov
from lsst.pipe.base.quantum_graph._provenance import (ProvenanceQuantumModel, ProvenanceQuantumScanModels,
                                                      ProvenanceQuantumScanStatus as S)
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor

from symx.core import outcome, patched
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = [
    "metadata and logs are as the execution code can write them: metadata is stored in the log only when no metadata "
    "dataset was written; all but the last attempt of a quantum are failures",
    "contents of log records are small; resource usage numbers are fixed",
]
QID = uuid.UUID(int=77)
A = QuantumAttemptStatus
META, LOG, X, Y = (uuid.UUID(int=k + 100) for k in range(4))
PRED = PredictedQuantumDatasetsModel(
    quantum_id=QID, task_label="one", outputs={
        acc.METADATA_OUTPUT_CONNECTION_NAME: [PredictedDatasetModel(dataset_id=META, dataset_type_name="m", run="r")],
        acc.LOG_OUTPUT_CONNECTION_NAME: [PredictedDatasetModel(dataset_id=LOG, dataset_type_name="l", run="r")],
        "x": [PredictedDatasetModel(dataset_id=X, dataset_type_name="x", run="r"),
              PredictedDatasetModel(dataset_id=Y, dataset_type_name="y", run="r")]})


def record(text):
    return ButlerLogRecord(name="n", asctime="2026-01-01T00:00:00+00:00", message=text, levelno=20, levelname="INFO", filename="f",
                           pathname="p", lineno=1, process=1, processName="P", MDC={})


def metadata(eng, tag, quantum=None):
    """Task metadata as the executor writes it: (metadata, caveats, outputs or None)."""
    m = TaskMetadata()
    m["one"] = TaskMetadata()
    m["who"] = tag
    if quantum is None:
        quantum = bool(eng.bool(f"{tag}_quantum"))
    outs = None
    caveats = None
    if quantum:
        q = TaskMetadata()
        for k in ("prep", "init", "start", "end"):
            q[f"{k}Utc"] = "2026-01-01T00:00:00+00:00"
            q[f"{k}CpuTime"] = 1.0
            q[f"{k}MaxResidentSetSize"] = 7
        if eng.bool(f"{tag}_has_outputs"):
            outs = [i for k, i in enumerate((X, Y)) if eng.bool(f"{tag}_out{k}")]
            q["outputs"] = [str(i) for i in outs]
        if eng.bool(f"{tag}_has_caveats"):
            caveats = eng.choice(f"{tag}_caveats", (0, 2, 7, 16))
            q["caveats"] = caveats
        m["quantum"] = q
    return m, caveats, outs


def exc(name):
    return {"type_name": name, "message": "msg", "metadata": {"a": 1}}


def scan(eng, n_prev, nested):
    """from_metadata_and_logs + to_scan_data for every leftover of n_prev+1 attempts."""
    incomplete = bool(eng.bool("incomplete"))
    has_log, has_meta = bool(eng.bool("log")), bool(eng.bool("meta"))
    logs = meta = None
    caveats = outs = None
    want_prev = []
    last = dict(exc=None, meta=None, prev=[])
    if has_meta:
        meta, caveats, outs = metadata(eng, "m")
        if eng.bool("failure"):
            f = TaskMetadata()
            f["type"], f["message"] = "Partial", "pmsg"
            f["metadata"] = TaskMetadata()
            f["metadata"]["k"] = 3
            meta["one"]["failure"] = f
            last["exc"] = "Partial"
        last["meta"] = "m"
    if has_log:
        logs = ButlerLogRecords([record("last")])
        extra = {}
        attempts = []
        for k in range(eng.choice("n_prev", range(n_prev + 1))):
            a = {"logs": [record(f"p{k}").model_dump()]}
            w = dict(log=f"p{k}", exc=None, meta=None, prev=[])
            if eng.bool(f"p{k}_exc"):
                a["exception"] = exc(f"E{k}")
                w["exc"] = f"E{k}"
            if eng.bool(f"p{k}_meta"):
                a["metadata"] = metadata(eng, f"p{k}", quantum=not nested and k == 0)[0].model_dump()
                w["meta"] = f"p{k}"
            if nested and eng.bool(f"p{k}_prev"):
                a["previous_process_quanta"] = [str(uuid.UUID(int=k + 5))]
                w["prev"] = [uuid.UUID(int=k + 5)]
            attempts.append(a)
            want_prev.append(w)
        if attempts:
            extra["previous_attempts"] = attempts
        if eng.bool("l_prev"):
            extra["previous_process_quanta"] = [str(uuid.UUID(int=9)), str(uuid.UUID(int=10))]
            last["prev"] = [uuid.UUID(int=9), uuid.UUID(int=10)]
        if not has_meta:
            if eng.bool("l_exc"):
                extra["exception"] = exc("EL")
                last["exc"] = "EL"
            if eng.bool("l_meta"):
                lm, _, outs = metadata(eng, "lm")
                extra["metadata"] = lm.model_dump()
                last["meta"] = "lm"
        logs.extra = extra
    kind, r = outcome(ProvenanceQuantumScanModels.from_metadata_and_logs, PRED, meta, logs, incomplete=incomplete)
    eng.check(kind == "ok", "the leftovers of a quantum cannot be read", repr(r))
    eng.check(r.quantum_id == QID, "wrong quantum")
    if not has_meta and incomplete:
        eng.check(r.status is S.ABANDONED, "a quantum that may still be running was given up for good", str(r.status))
        eng.reach("abandoned")
        return
    eng.check(r.status is (S.SUCCESSFUL if has_meta else S.FAILED), "wrong scan status", str(r.status))
    want_status = {(True, True): A.SUCCESSFUL, (True, False): A.ABORTED_SUCCESS, (False, True): A.FAILED,
                   (False, False): A.UNKNOWN}[has_meta, has_log]
    verify(eng, r.attempts, r.logs.attempts, r.metadata.attempts, want_prev, last, want_status,
           "last" if has_log else None)
    eng.check(r.attempts[-1].caveats == (None if caveats is None else QuantumSuccessCaveats(caveats)),
              "wrong caveats", f"{r.attempts[-1].caveats} {caveats}")
    eng.check(r.output_existence.get(META) is has_meta and r.output_existence.get(LOG) is has_log,
              "wrong existence of metadata or log", str(r.output_existence))
    if outs is not None:
        eng.check(all(r.output_existence.get(i) is (i in outs) for i in (X, Y)),
                  "recorded outputs are not those the task wrote", str(r.output_existence))
        eng.reach("outputs")
    else:
        eng.check(X not in r.output_existence and Y not in r.output_existence,
                  "existence of outputs was guessed", str(r.output_existence))
        kind, err = outcome(r.to_scan_data, PRED)
        eng.check(kind == "exc", "unknown outputs are recorded as known")
        r.output_existence[X] = bool(eng.bool("scan_x"))
        r.output_existence[Y] = False
    produced = {i for i, b in r.output_existence.items() if b}
    data = r.to_scan_data(PRED)
    eng.check(data.existing_outputs == produced and data.status is r.status and data.quantum_id == QID,
              "the scan data differ from the scan")
    q = ProvenanceQuantumModel.model_validate_json(data.quantum)
    logs2 = prov.ProvenanceLogRecordsModel.model_validate_json(data.logs).attempts
    meta2 = prov.ProvenanceTaskMetadataModel.model_validate_json(data.metadata).attempts
    verify(eng, q.attempts, logs2, meta2, want_prev, last, want_status, "last" if has_log else None)
    eng.check(q.quantum_id == QID and {d for v in q.outputs.values() for d in v} == {META, LOG, X, Y},
              "the recorded quantum has other outputs than predicted")
    eng.reach(want_status.name)
    if want_prev:
        eng.reach("retried")


def verify(eng, attempts, logs, metas, want_prev, last, status, last_log):
    n = len(want_prev) + 1
    eng.check(len(attempts) == n, "wrong number of attempts", f"{len(attempts)} {n}")
    eng.check([a.attempt for a in attempts] == list(range(n)), "attempts are misnumbered")
    eng.check(attempts[-1].status is status, "wrong status of the last attempt", f"{attempts[-1].status} {status}")
    eng.check(all(a.status is A.FAILED for a in attempts[:-1]), "an earlier attempt is not a failure")
    eng.check(len(logs) == n and len(metas) == n, "logs or metadata do not match the attempts", f"{len(logs)} {len(metas)} {n}")
    for a, lg, m, w in zip(attempts, logs, metas, want_prev + [dict(last, log=last_log)]):
        eng.check((lg[0].message if lg else None) == w["log"], "the logs of an attempt are those of another")
        eng.check((m["who"] if m is not None else None) == w["meta"], "the metadata of an attempt are those of another",
                  f"{m} {w}")
        eng.check((a.exception.type_name if a.exception else None) == w["exc"], "wrong exception of an attempt",
                  f"{a.exception} {w}")
        eng.check(list(a.previous_process_quanta) == w["prev"], "wrong quanta of the same process")
        eng.check((a.resource_usage is not None) == (m is not None and "quantum" in m), "wrong resource usage")


# ---------------------------------------------------------------------------
NODE, GRAPH = te.node(te.Task1, "one")
NODE2, GRAPH2 = te.node(te.Task2, "two")
EXISTING = "no provenance can be written for a quantum whose outputs already existed"


class Boom(Exception):
    pass


class Factory(TaskFactory):
    def __init__(self, script):
        self.script = script

    def makeTask(self, task_node, /, butler, initInputRefs):
        if self.script == "ctor":
            raise Boom("constructor")
        return super().makeTask(task_node, butler, initInputRefs)


def executed(eng, which, scripts, attempts=1, in_process=True, inputs=False, existing=False, skip=False):
    """Real executor, then the provenance written for it."""
    task_node, graph = (NODE, GRAPH) if which == 1 else (NODE2, GRAPH2)
    minimum = which
    q = te.quantum_for(task_node, graph, n_a=2, n_y=1)
    in_a, in_p = list(q.inputs["in_a"]), list(q.inputs["in_p"])
    exists = {r.id: bool(eng.bool(f"in{i}")) if inputs else True for i, r in enumerate(in_a + in_p)}
    store = te.Store(lambda ref: exists.get(ref.id, False))
    [meta_ref] = q.outputs[task_node.metadata_output.dataset_type_name]
    [log_ref] = q.outputs[task_node.log_output.dataset_type_name]
    [x_ref], [y_ref] = q.outputs["out_x"], q.outputs["out_y"]
    pred = PredictedQuantumDatasetsModel.from_execution_quantum(task_node, q, QID)
    seen = {}
    history = []
    for k in range(attempts):
        script = eng.choice(f"script{k}", scripts)
        seen.clear()
        seen["put"] = []

        def run_quantum(task, butlerQC, inputRefs, outputRefs):
            seen["ran"] = True
            for i, r in enumerate([outputRefs.x, *outputRefs.y]):
                if eng.bool(f"put{k}_{i}"):
                    butlerQC.put({"v": 1}, r)
                    seen["put"].append(r.id)
            if script == "nowork":
                raise NoWorkFound("nothing")
            if script == "partial":
                raise AnnotatedPartialOutputsError("partial") from Boom("inner")
            if script == "error":
                raise Boom("task")

        ex = SingleQuantumExecutor(
            butler=None, limited_butler_factory=lambda quantum: store, task_factory=Factory(script),
            skip_existing=skip, clobber_outputs=not existing, raise_on_partial_outputs=False)
        te.Task1.script = te.Task2.script = staticmethod(run_quantum)
        records = ButlerLogRecords([]) if in_process else None
        if script == "metafail":
            store.put_fails = lambda ref: ref == meta_ref
        elif script == "putfail":
            store.put_fails = lambda ref: ref == y_ref
        else:
            store.put_fails = None
        with patched(log_capture, TemporaryForIngest=te.Temporary):
            kind, r = outcome(ex.execute, task_node, q, quantum_id=QID, log_records=records)
        refused = bool(history) and existing
        history.append((script, kind, dict(seen)))
        if refused:
            break
    n = len(history)
    # what the in-process graph executor, or the scanner, hands to the provenance code
    metadata = logs = None
    if in_process:
        metadata = r.task_metadata if kind == "ok" else None
        logs = records
    else:
        metadata = store.objects[meta_ref.id] if store._has(meta_ref) else None
        logs = store.objects[log_ref.id] if store._has(log_ref) else None
    script, kind, s = history[-1]
    models = ProvenanceQuantumScanModels.from_metadata_and_logs(pred, metadata, logs)
    if not in_process:
        for ref in (x_ref, y_ref):
            models.output_existence.setdefault(ref.id, store._has(ref))
    k2, data = outcome(models.to_scan_data, pred)
    if refused:
        # the quantum was skipped, or refused to overwrite what an earlier attempt left
        eng.check(k2 == "ok", EXISTING, repr(data))
        return
    eng.check(k2 == "ok", "no provenance can be written for this quantum", repr(data))
    got = ProvenanceQuantumModel.model_validate_json(data.quantum)
    eng.check(len(got.attempts) == n, "wrong number of attempts", f"{len(got.attempts)} {n}")
    eng.check(got.attempts[-1].status is (A.SUCCESSFUL if kind == "ok" else A.FAILED),
              "the recorded status is not what happened", f"{got.attempts[-1].status} {kind} {script}")
    eng.check(data.status is (S.SUCCESSFUL if kind == "ok" else S.FAILED), "wrong scan status")
    # truth: what is stored now
    now = {ref.id for ref in (meta_ref, log_ref, x_ref, y_ref) if store._has(ref)}
    eng.check(data.existing_outputs == now, "the recorded outputs are not those that exist",
              f"{script} {len(data.existing_outputs)} {len(now)}")
    for a, (sc, kd, ss) in zip(got.attempts, history):
        name = a.exception.type_name.rsplit(".", 1)[-1] if a.exception else None
        if kd == "exc":
            want = ("Boom",) if (sc == "error" and ss.get("ran")) or sc == "ctor" else ("OSError", "FileNotFoundError", "Boom")
            eng.check(name in want or (name is None and sc == "metafail"),
                      "a failed attempt has no or the wrong exception", f"{name} {sc}")
        elif sc == "partial" and ss.get("ran"):
            eng.check(a.exception is None or name == "Boom" or name == "AnnotatedPartialOutputsError", "wrong partial error", str(name))
    if kind == "ok":
        eng.check(got.attempts[-1].caveats is not None, "caveats are missing")
        if s.get("ran"):
            want = QuantumSuccessCaveats.NO_CAVEATS
            if not s["put"]:
                want |= QuantumSuccessCaveats.ALL_OUTPUTS_MISSING
            if len(s["put"]) < 2:
                want |= QuantumSuccessCaveats.ANY_OUTPUTS_MISSING
            if script == "nowork":
                want |= QuantumSuccessCaveats.NO_WORK
            if script == "partial":
                want |= QuantumSuccessCaveats.PARTIAL_OUTPUTS_ERROR
            eng.check(got.attempts[-1].caveats == want, "wrong caveats", str(got.attempts[-1].caveats))
        eng.reach("success")
    else:
        eng.reach("failure")
        if not s.get("ran"):
            eng.reach("never-ran")
    ms = prov.ProvenanceTaskMetadataModel.model_validate_json(data.metadata).attempts
    ls = prov.ProvenanceLogRecordsModel.model_validate_json(data.logs).attempts
    eng.check(len(ms) == n and len(ls) == n, "logs or metadata do not match the attempts")
    if n > 1:
        eng.reach("retried")


def cases(tier):
    q = tier == "quick"
    sc = ("ok", "nowork", "partial", "error", "ctor", "putfail", "metafail")
    return [
        Case("leftovers", scan, dict(n_prev=1, nested=False), "any leftovers of up to 2 attempts",
             ("SUCCESSFUL", "ABORTED_SUCCESS", "FAILED", "UNKNOWN", "abandoned", "retried", "outputs")),
        Case("leftovers-retries", scan, dict(n_prev=2 if q else 3, nested=True),
             f"any leftovers of up to {3 if q else 4} attempts", ("SUCCESSFUL", "FAILED", "retried"),
             validate_every=100, time_cap=600 if q else 3000),
        Case("in-process", executed, dict(which=1, scripts=sc), "every ending, any outputs written, in-process provenance",
             ("success", "failure", "never-ran")),
        Case("in-process-inputs", executed, dict(which=2, scripts=("ok", "error"), inputs=True),
             "any subset of inputs present, minimum 2 and a required prerequisite", ("success", "failure", "never-ran")),
        Case("in-process-retry", executed, dict(which=1, scripts=("ok", "error", "ctor"), attempts=2),
             "two attempts in one run", ("success", "failure", "retried")),
        Case("in-process-existing", executed, dict(which=1, scripts=("ok", "error"), attempts=2, existing=True),
             "a second attempt that must not overwrite", ()),
        Case("in-process-skip", executed, dict(which=1, scripts=("ok",), attempts=2, existing=True, skip=True),
             "a second attempt that is skipped", ()),
        Case("scanned", executed, dict(which=1, scripts=sc, in_process=False),
             "every ending, any outputs written, provenance from what is stored", ("success", "failure")),
        Case("scanned-inputs", executed, dict(which=2, scripts=("ok", "error"), inputs=True, in_process=False),
             "any subset of inputs present", ("success", "failure", "never-ran")),
        Case("scanned-retry", executed, dict(which=1, scripts=("ok", "error", "putfail") if q else sc, in_process=False,
                                             attempts=2 if q else 3),
             f"{2 if q else 3} attempts in one run", ("success", "failure", "retried"), validate_every=100,
             time_cap=600 if q else 3000),
    ]
