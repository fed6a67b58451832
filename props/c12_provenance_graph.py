"""C12: provenance graphs: what is written is what is read, in any order and part; reports count it right."""

from __future__ import annotations

import contextlib
import csv
import io
import json
import os
import shutil
import tempfile
import uuid

from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, FileDescriptor, Location, StorageClassFactory
from lsst.daf.butler.logging import ButlerLogRecords
from lsst.pipe.base import QuantumAttemptStatus as A
from lsst.pipe.base import automatic_connection_constants as acc
from lsst.pipe.base._status import QuantumSuccessCaveats as C
from lsst.pipe.base._task_metadata import TaskMetadata
from lsst.pipe.base.log_on_close import LogOnClose
from lsst.pipe.base.quantum_graph._provenance import (ProvenanceQuantumGraph, ProvenanceQuantumGraphReader,
                                                      ProvenanceQuantumGraphWriter, ProvenanceQuantumScanData,
                                                      ProvenanceQuantumScanModels, ProvenanceQuantumScanStatus as S)

from lsst.pipe.base.quantum_graph.formatter import ProvenanceFormatter
from lsst.resources import ResourcePath

from symx.core import outcome
from symx.runner import Case

from . import _qg_env as e
from .c27_scan_models import record

ASSUMPTIONS = [
    "one pipeline of two tasks with init datasets; the ending of every quantum, the order of writing, and every read are symbolic",
    "zipfile's relative seek works as in CPython >= 3.12.4; zip and zstd are run, not encoded; package versions are not written",
]
FACTORY = StorageClassFactory()
ENDS = ("ok", "partial", "retried", "failed", "blocked", "unknown", "aborted")


def task_metadata(tag, label, outs, caveats, failure=None):
    m = TaskMetadata()
    m[label] = TaskMetadata()
    m["who"] = tag
    if failure:
        f = TaskMetadata()
        f["type"], f["message"] = failure, "msg"
        m[label]["failure"] = f
    q = TaskMetadata()
    for k in ("prep", "init", "start", "end"):
        q[f"{k}Utc"] = "2026-01-01T00:00:00+00:00"
        q[f"{k}CpuTime"] = 1.0
        q[f"{k}MaxResidentSetSize"] = 7
    q["outputs"] = [str(i) for i in outs]
    if caveats is not None:
        q["caveats"] = caveats
    m["quantum"] = q
    return m


def ending(eng, q, tag, ends, caveats=(0,), excs=("x.E",), outs=None):
    """What one quantum left behind: (truth, scan data)."""
    end = eng.choice(f"{tag}_end", ends)
    pred = q
    regular = [d.dataset_id for c, v in q.outputs.items() if c not in (
        acc.METADATA_OUTPUT_CONNECTION_NAME, acc.LOG_OUTPUT_CONNECTION_NAME) for d in v]
    [md] = q.outputs[acc.METADATA_OUTPUT_CONNECTION_NAME]
    [lg] = q.outputs[acc.LOG_OUTPUT_CONNECTION_NAME]
    t = dict(end=end, status=A.BLOCKED, caveats=None, exc=None, n=0, produced=set(), logs=None, metas=None, md=md.dataset_id,
             log=lg.dataset_id, usage=False)
    if end == "blocked":
        return t, ProvenanceQuantumScanData.make_blocked(q.quantum_id)
    outs = [] if end == "unknown" or not (eng.bool(f"{tag}_out") if outs is None else outs) else regular
    t["produced"] = set(outs)
    meta = logs = None
    n = 1
    if end in ("ok", "partial", "retried", "aborted"):
        cav = eng.choice(f"{tag}_cav", caveats)
        if end == "partial":
            cav |= C.PARTIAL_OUTPUTS_ERROR.value
            t["exc"] = eng.choice(f"{tag}_exc", excs)
        meta = task_metadata(tag, q.task_label, outs, cav, t["exc"])
        t.update(caveats=C(cav), status=A.ABORTED_SUCCESS if end == "aborted" else A.SUCCESSFUL, metas=[tag], usage=True)
        t["produced"].add(md.dataset_id)
    if end in ("ok", "partial", "retried", "failed"):
        logs = ButlerLogRecords([record(tag)])
        t["logs"] = [tag]
        t["produced"].add(lg.dataset_id)
        extra = {}
        if end == "failed":
            t.update(status=A.FAILED, exc=eng.choice(f"{tag}_exc", excs), metas=[None], usage=True)
            extra["exception"] = {"type_name": t["exc"], "message": "m", "metadata": {}}
            extra["metadata"] = task_metadata(f"{tag}-f", q.task_label, outs, None).model_dump()
            t["metas"] = [f"{tag}-f"]
        if end == "retried":
            extra["previous_attempts"] = [{"logs": [record(f"{tag}-0").model_dump()],
                                           "exception": {"type_name": "x.Old", "message": "m", "metadata": {}}}]
            t["logs"] = [f"{tag}-0", tag]
            t["metas"] = [None, tag]
            n = 2
        logs.extra = extra
    else:
        t["logs"] = [None]
    if end == "unknown":
        t.update(status=A.UNKNOWN, metas=[None])
    t["n"] = n
    models = ProvenanceQuantumScanModels.from_metadata_and_logs(pred, meta, logs)
    for i in regular:
        models.output_existence.setdefault(i, i in outs)
    return t, models


def write(eng, name, quanta, truth, scans, init_exists, compressed, order):
    c = e.components(quanta)
    kept = {q.quantum_id: q for q in quanta}
    with contextlib.ExitStack() as stack:
        w = ProvenanceQuantumGraphWriter(name, exit_stack=stack, log_on_close=LogOnClose(lambda *a: None),
                                         predicted=c if order != "graph" else c.assemble())
        if init_exists is not None:
            for iq in e.init_quanta():
                w.write_scan_data(ProvenanceQuantumScanData(
                    iq.quantum_id, S.INIT, existing_outputs={d.dataset_id for d in e.all_outputs(iq)} & init_exists))
        if order == "inputs-last":
            steps = ["init", "quanta", "inputs"]
        elif order == "quanta-last":
            steps = ["inputs", "init", "quanta"]
        else:
            steps = ["quanta", "inputs", "init"]
        for step in steps:
            if step == "inputs":
                w.write_overall_inputs()
            elif step == "init":
                w.write_init_outputs(assume_existence=init_exists is None)
            else:
                for i in truth:
                    s = scans[i]
                    if isinstance(s, ProvenanceQuantumScanModels):
                        s = s.to_scan_data(kept[i], compressor=w.compressor if compressed else None)
                        eng.check(s.is_compressed == compressed, "scan data are not as compressed as asked")
                    w.write_scan_data(s)


def path():
    fd, name = tempfile.mkstemp(suffix=".qg")
    os.close(fd)
    return name


def make(eng, n, ends, missing=False, **kw):
    quanta = [e.quantum_a(d) for d in range(n)]
    if eng.bool("b"):
        reads = [d for d in range(n) if n == 1 or eng.bool(f"r{d}")]
        eng.assume(bool(reads))
        quanta.append(e.quantum_b(reads))
    truth, scans = {}, {}
    for k, q in enumerate(quanta):
        if missing and eng.bool(f"missing{k}"):
            continue  # e.g. the run was stopped
        truth[q.quantum_id], scans[q.quantum_id] = ending(eng, q, f"q{k}", ends, **kw)
    if len(truth) > 1 and eng.bool("flip"):
        truth = dict(reversed(truth.items()))
    return quanta, truth, scans


def world(quanta, truth, init_exists):
    """All that the file can tell: true nodes, edges, dataset existence."""
    edges, produced, info = set(), {}, {}
    made = {d.dataset_id for q in [*quanta, *e.init_quanta()] for d in e.all_outputs(q)}
    for q in [*quanta, *[i for i in e.init_quanta() if i.task_label]]:
        for c, v in q.inputs.items():
            for d in v:
                edges.add((d.dataset_id, q.quantum_id))
                info[d.dataset_id] = d
                if d.dataset_id not in made:
                    produced[d.dataset_id] = True
        for c, v in q.outputs.items():
            for d in v:
                info[d.dataset_id] = d
                edges.add((q.quantum_id, d.dataset_id))
                if q.quantum_id in truth:
                    produced[d.dataset_id] = d.dataset_id in truth[q.quantum_id]["produced"]
    for iq in e.init_quanta():
        if iq.task_label:
            for d in e.all_outputs(iq):
                produced[d.dataset_id] = init_exists is None or d.dataset_id in init_exists
    return edges, produced, info


OPS = ("full", "init", "quanta", "datasets", "q", "d", "initid", "mixed")


def readback(eng, n, ends, n_ops, ops=OPS, missing=False, init=False, orders=("inputs-last", "quanta-last", "graph"),
             pages=(64, 4096), compress=(True, False), outs=None):
    quanta, truth, scans = make(eng, n, ends, missing, outs=outs)
    init_exists = None
    if init and not eng.bool("assume"):
        init_exists = {d.dataset_id for k, d in enumerate(d for i in e.init_quanta() if i.task_label for d in e.all_outputs(i))
                       if eng.bool(f"init{k}")}
    name = path()
    try:
        write(eng, name, quanta, truth, scans, init_exists, bool(eng.choice("compressed", compress)), eng.choice("order", orders))
        by_id = {q.quantum_id: q for q in quanta}
        edges, produced, info = world(quanta, truth, init_exists)
        qids, dids = list(truth), list(produced)
        lq, ld, li = set(), set(), False
        with ProvenanceQuantumGraphReader.open(name, page_size=eng.choice("page", pages)) as r:
            for k in range(n_ops):
                op = eng.choice(f"op{k}", ops)
                if op == "full":
                    r.read_full_graph()
                    lq, ld, li = set(qids), set(dids), True
                elif op == "init":
                    r.read_init_quanta()
                    li = True
                elif op == "quanta":
                    r.read_quanta()
                    lq |= set(qids)
                elif op == "datasets":
                    r.read_datasets()
                    ld |= set(dids)
                elif op == "q":
                    some = [qids[eng.int(f"i{k}", 0, len(qids) - 1)]] if qids else []
                    r.read_quanta(some)
                    lq |= set(some)
                elif op == "d":
                    some = [dids[eng.int(f"j{k}", 0, len(dids) - 1)]]
                    r.read_datasets(some)
                    ld |= set(some)
                elif op == "initid":
                    kind, err = outcome(r.read_quanta, [e.uid("init-a"), e.uid("init-b"), *qids[:1]])
                    eng.check(kind == "ok", "the ID of an init quantum is not ignored", repr(err))
                    lq |= set(qids[:1])
                    eng.reach("init-id")
                else:
                    # IDs of the other kind are ignored
                    r.read_quanta([dids[0], *qids[-1:]])
                    r.read_datasets([*qids[:1], dids[-1]])
                    lq |= set(qids[-1:])
                    ld.add(dids[-1])
            g = r.graph
            verify(eng, g, by_id, truth, edges, produced, info, lq, ld, li)
            fetched(eng, r, truth)
        eng.reach("partial" if len(lq) < len(qids) else "all")
    finally:
        os.unlink(name)


def verify(eng, g, by_id, truth, edges, produced, info, lq, ld, li):
    bx, qx = g.bipartite_xgraph, g.quantum_only_xgraph
    init_ids = {i.quantum_id: i for i in e.init_quanta() if i.task_label}
    auto = {truth[i][k] for i in lq for k in ("md", "log")}
    init_outs = {d.dataset_id for i in init_ids.values() for d in e.all_outputs(i)} if li else set()
    # nodes
    got_q = {i for v in g.quanta_by_task.values() for i in v.values()}
    eng.check(got_q == lq, "the graph has other quanta than were read", f"{len(got_q)} {len(lq)}")
    got_d = {i for v in g.datasets_by_type.values() for i in v.values()}
    eng.check(got_d >= ld | auto | init_outs and got_d <= set(produced), "the graph has other datasets than were read")
    for i in lq:
        q, t = by_id[i], truth[i]
        for x in (bx, qx):
            a = x.nodes[i]
            eng.check(a["task_label"] == q.task_label and tuple(a["data_id"].full_values) == tuple(q.data_coordinate)
                      and a["pipeline_node"].label == q.task_label, "a quantum has a wrong label or data ID")
            eng.check(a["status"] is t["status"] and a["caveats"] == t["caveats"], "a quantum has a wrong status or caveats",
                      f"{a['status']} {a['caveats']} {t['end']}")
            eng.check((a["exception"].type_name if a["exception"] else None) == t["exc"], "a quantum has a wrong exception")
            eng.check(len(a["attempts"]) == t["n"], "a quantum has a wrong number of attempts")
            eng.check((a["resource_usage"] is not None) == t["usage"], "a quantum has wrong resource usage")
            eng.check(a["metadata_id"] == t["md"] and a["log_id"] == t["log"], "a quantum has wrong metadata or log IDs")
        eng.check(g.quanta_by_task[q.task_label][bx.nodes[i]["data_id"]] == i, "a quantum is filed under a wrong data ID")
    for i in got_d:
        a, d = bx.nodes[i], info[i]
        eng.check(a["dataset_type_name"] == d.dataset_type_name and a["run"] == d.run
                  and tuple(a["data_id"].full_values) == tuple(d.data_coordinate)
                  and a["pipeline_node"].name == d.dataset_type_name, "a dataset has wrong properties")
        # the init quanta alone do not tell whether their outputs exist
        eng.check(a["produced"] == produced[i] or i not in ld | auto, "a dataset is recorded as produced when it was not, or the other way round",
                  f"{d.dataset_type_name} {a['produced']}")
        eng.check(g.datasets_by_type[d.dataset_type_name][a["data_id"]] == i, "a dataset is filed under a wrong data ID")
    # edges
    have = set(bx.edges)
    need = {(a, b) for a, b in edges if a in lq or b in lq or a in ld or b in ld}
    if li:
        need |= {(a, b) for a, b in edges if a in init_ids or b in init_ids}
    eng.check(need <= have, "edges of loaded quanta or datasets are missing", str(len(need - have)))
    eng.check(have <= edges, "the graph has edges that do not exist", str(len(have - edges)))
    for i in [*lq, *(init_ids if li else ())]:
        q = by_id.get(i) or init_ids[i]
        for group, read in ((q.inputs, True), (q.outputs, False)):
            conns = {}
            for c, v in group.items():
                for d in v:
                    conns.setdefault(d.dataset_id, []).append(c)
            for did, cs in conns.items():
                a = bx.edges[(did, i) if read else (i, did)]
                eng.check(a.get("is_read") is read and sorted(x.connection_name for x in a["pipeline_edges"]) == sorted(cs),
                          "an edge has wrong attributes")
    # quantum-only graph
    eng.check(lq <= set(qx.nodes) <= set(by_id), "the quantum-only graph has nodes that are not quanta of this graph")
    true = {(p, c) for p, d in edges for d2, c in edges if d == d2 and p in by_id and c in by_id}
    via = {(p, c) for p, d in edges for d2, c in edges if d == d2 and d in ld and p in by_id and c in by_id}
    need = {(a, b) for a, b in true if a in lq and b in lq} | via
    eng.check(need <= set(qx.edges) <= true, "the quantum-only graph has wrong dependencies", str(set(qx.edges)))
    if li:
        eng.check(dict(g.init_quanta) == {q.task_label: i for i, q in init_ids.items()}, "wrong init quanta")
        for i in init_ids:
            eng.check(bx.nodes[i]["config_id"] == e.ds(f"{init_ids[i].task_label}_config").dataset_id, "wrong config ID")


def fetched(eng, r, truth):
    ids = [i for t in truth.items() for i in (t[0], t[1]["md"], t[1]["log"])]
    logs, metas = r.fetch_logs(ids), r.fetch_metadata(ids)
    want_logs, want_metas = {}, {}
    for i, t in truth.items():
        if t["n"]:
            want_logs[i] = want_logs[t["log"]] = t["logs"]
            want_metas[i] = want_metas[t["md"]] = t["metas"]
    got = {i: [x[0].message if x is not None else None for x in v] for i, v in logs.items()}
    eng.check(got == want_logs, "the logs read back are not those of the quantum", f"{got} {want_logs}")
    got = {i: [x["who"] if x is not None else None for x in v] for i, v in metas.items()}
    eng.check(got == want_metas, "the metadata read back are not those of the quantum", f"{got} {want_metas}")


def fmt(name, ref, storage_class, parameters=None, component=None):
    sc = FACTORY.getStorageClass(storage_class)
    fd = FileDescriptor(Location(None, ResourcePath(name)), sc, parameters=parameters)
    return outcome(ProvenanceFormatter(fd, ref=ref).read_from_uri, ResourcePath(name), component)


def formatter(eng, n, ends):
    """Butler reads from an ingested graph file."""
    quanta, truth, scans = make(eng, n, ends, outs=True)
    name = path()
    try:
        write(eng, name, quanta, truth, scans, None, True, "inputs-last")
        for q in quanta:
            t = truth[q.quantum_id]
            task = e.PIPELINE.tasks[q.task_label]
            data_id = DataCoordinate.from_full_values(task.dimensions, tuple(q.data_coordinate))
            for key, sc, texts, who in (("md", "TaskMetadata", t["metas"], lambda x: x["who"]),
                                        ("log", "ButlerLogRecords", t["logs"], lambda x: x[0].message)):
                dt = e.PIPELINE.dataset_types[f"{q.task_label}_{'metadata' if key == 'md' else 'log'}"].dataset_type
                ref = DatasetRef(dt, data_id, run=e.RUN, id=t[key])
                kind, got = fmt(name, ref, sc)
                if texts and texts[-1] is not None:
                    eng.check(kind == "ok" and who(got) == texts[-1], "a log or metadata dataset is not that of the last attempt",
                              repr(got)[:200])
                    eng.reach("dataset")
                else:
                    eng.check(kind == "exc" and isinstance(got, FileNotFoundError), "a missing log or metadata dataset is not reported as such",
                              repr(got)[:200])
                    eng.reach("no-dataset")
        g_ref = DatasetRef(DatasetType("run_provenance", e.UNIVERSE.empty, "ProvenanceQuantumGraph"),
                           DataCoordinate.make_empty(e.UNIVERSE), run=e.RUN)
        some = [q.quantum_id for k, q in enumerate(quanta) if eng.bool(f"some{k}")]
        kind, g = fmt(name, g_ref, "ProvenanceQuantumGraph", dict(quanta=iter(some), datasets=()))
        eng.check(kind == "ok" and {i for v in g.quanta_by_task.values() for i in v.values()} == set(some),
                  "a partial butler read gives other quanta", repr(g)[:200])
        kind, got = fmt(name, g_ref, "ProvenanceQuantumGraph", dict(quanta=some), "logs")
        eng.check(kind == "ok" and {i: [x[0].message if x else None for x in v] for i, v in got.items()} == {
            i: truth[i]["logs"] for i in some if truth[i]["n"]}, "a butler read of logs gives others", repr(got)[:200])
        kind, got = fmt(name, g_ref, "ProvenanceQuantumGraph", dict(quanta=some), "metadata")
        eng.check(kind == "ok" and {i: [x["who"] if x else None for x in v] for i, v in got.items()} == {
            i: truth[i]["metas"] for i in some if truth[i]["n"]}, "a butler read of metadata gives others", repr(got)[:200])
    finally:
        os.unlink(name)


CAVEATS = (0, 1, 3, 7, 5, 21, 37)


def report(eng, n, ends, missing=False, args=False, caveats=CAVEATS, excs=("x.E",), all_states=True):
    """Tables and reports of a graph."""
    quanta, truth, scans = make(eng, n, ends, missing, caveats=caveats, excs=excs, outs=True)
    name = path()
    scratch = tempfile.mkdtemp()
    try:
        write(eng, name, quanta, truth, scans, None, False, "inputs-last")
        only = None
        if args and truth:
            only = [i for k, i in enumerate(truth) if eng.bool(f"only{k}")]
        with ProvenanceQuantumGraph.from_args(name, quanta=only, datasets=[] if only is not None else None) as (g, butler):
            pass
        shown = dict(truth) if only is None else {i: truth[i] for i in only}
        label = {q.quantum_id: q.task_label for q in quanta}
        data_id = {q.quantum_id: q.data_coordinate for q in quanta}
        got = {i for v in g.quanta_by_task.values() for i in v.values()}
        eng.check(got == set(shown), "other quanta are loaded than were asked for", f"{len(got)} {len(shown)}")
        rows = {r["Task"]: r for r in g.make_quantum_table(as_table=False, expand_caveats=True)}
        expected = {t: sum(q.task_label == t for q in quanta) for t in ("a", "b")}
        eng.check(set(rows) == {t for t in expected if expected[t]}, "tasks are missing in the table")
        for t, row in rows.items():
            mine = [x for i, x in shown.items() if label[i] == t]
            for s in A:
                eng.check(row[s.title] == sum(x["status"] is s for x in mine), "quanta are miscounted", f"{s} {row}")
            eng.check(row["TOTAL"] == len(mine) and row["EXPECTED"] == expected[t], "wrong totals", str(row))
            counts = {}
            for x in mine:
                if x["caveats"]:
                    counts[x["caveats"]] = counts.get(x["caveats"], 0) + 1
            want = sorted(f"{c.concise()}({k})" for c, k in counts.items())
            eng.check(sorted(filter(None, row["Caveats"].split(","))) == want, "caveats are miscounted", row["Caveats"])
            for c, k in counts.items():
                x = C.expanded_dict(f"{c.concise()}({k})")
                eng.check(x is not None and (x["token"] or "") + (x["code"] or "") == c.concise() and x["count"] == str(k),
                          "a caveat is lost in the JSON report", f"{c.concise()}({k}) {x}")
        if rows:
            table = g.make_quantum_table()
            for i, row in enumerate(rows.values()):
                for s in A:
                    eng.check((s.title in table.colnames or not row[s.title]) and
                              (s.title not in table.colnames or table[s.title][i] == row[s.title]), "the table drops or changes counts")
        exc = {}
        for i, x in shown.items():
            if x["exc"]:
                k = (label[i], x["exc"], x["status"] is A.SUCCESSFUL)
                exc[k] = exc.get(k, 0) + 1
        got = {}
        for row in g.make_exception_table(as_table=False):
            for col, ok in (("Successes", True), ("Failures", False)):
                if row[col]:
                    eng.check((row["Task"], row["Exception"], ok) not in got, "an exception is listed twice")
                    got[row["Task"], row["Exception"], ok] = row[col]
        eng.check(got == exc, "exceptions are miscounted", f"{got} {exc}")
        for t in ("a", "b"):
            usage = g.make_task_resource_usage_table(t, include_data_ids=True)
            ids = sorted(uuid.UUID(bytes=bytes(r["quantum_id"])) for r in usage)
            eng.check(ids == sorted(i for i, x in shown.items() if label[i] == t and x["usage"]), "resource usage is lost or doubled")
            task = g.pipeline_graph.tasks[t]
            for row in usage:
                (mine,) = [d for d, i in g.quanta_by_task[t].items() if i == uuid.UUID(bytes=bytes(row["quantum_id"]))]
                eng.check(all(row[k] == mine[k] for k in task.dimensions.required), "wrong data ID beside resource usage", str(row))
            plain = g.make_task_resource_usage_table(t)
            eng.check([bytes(r["quantum_id"]) for r in plain] == [bytes(r["quantum_id"]) for r in usage] and
                      not set(task.dimensions.names) & set(plain.colnames), "data IDs where none were asked for")
        # status reports
        states = eng.choice("states", ((A.FAILED, A.ABORTED, A.ABORTED_SUCCESS), (A.FAILED,), (A.BLOCKED, A.UNKNOWN), (A.SUCCESSFUL,))[:4 if all_states else 1])
        also = eng.choice("also", ((), A.SUCCESSFUL))
        with_caveats = eng.choice("with", (None, C.PARTIAL_OUTPUTS_ERROR, C.ANY_OUTPUTS_MISSING))
        rep = g.make_status_report(states, also=also, with_caveats=with_caveats, data_id_table_dir=scratch)
        wanted = set(states) | ({also} if also else set())

        def expect(wanted):
            return sorted(((label[i], x["status"].name, x["exc"], i) for i, x in shown.items() if x["status"] in wanted and not (
                x["status"] is A.SUCCESSFUL and with_caveats is not None and not x["caveats"] & with_caveats)), key=repr)

        def listed(root):
            return sorted(((t, s, k if k not in ("None", "null") else None, uuid.UUID(str(r["quantum_id"]))) for t, v in root.items()
                           for s, w in v.items() for k, rs in w.items() for r in rs), key=repr)

        want = expect(wanted)
        got = listed(rep.model_dump())
        eng.check(got == want, "the status report does not list exactly the quanta asked for", f"{len(got)} {len(want)}")
        tables = []
        for root, _, files in os.walk(scratch):
            for f in files:
                t, s = os.path.relpath(root, scratch).split(os.sep)
                lines = [x for x in open(os.path.join(root, f)).read().splitlines() if not x.startswith("#")]
                names, *data = csv.reader(lines, delimiter=" ")
                k = f.removesuffix(".ecsv")
                tables += [(t, s, None if k == "UNKNOWN" else k, tuple(r)) for r in data]
        eng.check(sorted(tables, key=repr) == sorted(((t, s, k, tuple(str(v) for v in data_id[i])) for t, s, k, i in want), key=repr),
                  "the data ID tables do not list exactly the quanta asked for", f"{tables}")
        # everything at once, as the command line does it
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            g.make_many_reports(states, status_report_file=os.path.join(scratch, "r.json"), also=also, with_caveats=with_caveats,
                                output_format="json", print_quantum_table=True, print_exception_table=True)
        wanted2 = wanted | ({A.SUCCESSFUL} if with_caveats is not None else set())
        want2 = expect(wanted2)
        got = listed(json.load(open(os.path.join(scratch, "r.json"))))
        eng.check(got == want2, "the report file does not list exactly the quanta asked for", f"{len(got)} {len(want2)}")
        printed = json.loads(out.getvalue())
        for row in printed["tasks"] or ():
            mine = [x for i, x in shown.items() if label[i] == row["Task"]]
            n_cav = sum(int(c["count"]) for c in row["Caveats"] if c is not None)
            eng.check(n_cav == sum(bool(x["caveats"]) for x in mine), "the JSON report loses caveats", str(row["Caveats"]))
        eng.reach("reported")
        if want:
            eng.reach("listed")
    finally:
        os.unlink(name)
        shutil.rmtree(scratch)


def cases(tier):
    q = tier == "quick"
    fixed = dict(orders=("inputs-last",), pages=(64,), compress=(False,))
    out = [
        Case("written", readback, dict(n=2, ends=ENDS, n_ops=1, ops=("full",), outs=True, **fixed),
             "2-3 quanta, every combination of endings", ("all",), validate_every=200),
        Case("outputs", readback, dict(n=1, ends=ENDS, n_ops=1, ops=("full", "quanta", "datasets"), compress=(True,), pages=(64,)),
             "up to 2 quanta, every ending and output", ("all",), validate_every=100),
        Case("write-order", readback, dict(n=1, ends=("ok", "failed", "blocked"), n_ops=1, ops=("full", "quanta"), missing=True, outs=True),
             "any write order, compressed or not, some quanta never scanned", ("all",), validate_every=100),
        Case("init", readback, dict(n=1, ends=("ok",), n_ops=1, ops=("full", "init", "datasets"), init=True, outs=True, **fixed),
             "any subset of init outputs exists", ("all", "partial"), validate_every=50),
        Case("init-2", readback, dict(n=1, ends=("ok",), n_ops=2, ops=("init", "datasets"), init=True, outs=True, **fixed),
             "any subset of init outputs exists, read in two steps", ("partial",), validate_every=200),
        Case("read-2", readback, dict(n=1, ends=("ok", "failed"), n_ops=2, outs=True, **fixed), "up to 2 quanta, any two reads",
             ("partial", "all", "init-id"), validate_every=200, time_cap=600),
        Case("butler", formatter, dict(n=1, ends=ENDS), "up to 2 quanta, every ending, read through the butler formatter",
             ("dataset", "no-dataset"), validate_every=100),
        Case("report", report, dict(n=1, ends=("ok", "partial", "failed", "blocked", "aborted"), caveats=(0, 1, 5)),
             "up to 2 quanta, any ending, any report", ("reported", "listed"), validate_every=200, time_cap=600),
        Case("report-caveats", report, dict(n=1, ends=("ok", "partial"), all_states=False),
             "up to 2 quanta with any caveats", ("reported", "listed"), validate_every=200, time_cap=600),
        Case("report-excs", report, dict(n=2, ends=("partial", "failed"), excs=("x.E", "x.F"), caveats=(0,), all_states=False),
             "up to 3 quanta with any exceptions", ("reported", "listed"), validate_every=200, time_cap=600),
        Case("report-part", report, dict(n=1, ends=("ok", "failed"), args=True, caveats=(0, 3)), "any subset of quanta requested",
             ("reported",), validate_every=200, time_cap=600),
    ]
    if not q:
        out += [
            Case("read-3", readback, dict(n=1, ends=("ok",), n_ops=3, outs=True, **fixed), "up to 2 quanta, any three reads",
                 ("partial", "all"), validate_every=1000, time_cap=3000),
            Case("read-2-3", readback, dict(n=2, ends=("ok",), n_ops=2, outs=True, orders=("quanta-last",)), "2-3 quanta, any two reads",
                 ("partial", "all"), validate_every=1000, time_cap=3000),
            Case("report-3", report, dict(n=2, ends=("ok", "partial", "failed", "blocked"), missing=True, caveats=(0, 1, 5)),
                 "2-3 quanta, any ending", ("reported", "listed"), validate_every=1000, time_cap=3000),
        ]
    return out
