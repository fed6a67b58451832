"""C07: a task can read only its quantum's inputs and write only its quantum's outputs."""

from __future__ import annotations

import uuid

from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, Quantum
from lsst.pipe.base import QuantumContext, Struct
from lsst.pipe.base.connections import DeferredDatasetRef, InputQuantizedConnection, OutputQuantizedConnection

from symx.core import Stub, outcome
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = [
    "the butler is a recording stand-in; dataset IDs are symbolic 128-bit values, dataset types and data IDs range "
    "over a small set",
]
DIMS = te.UNIVERSE.conform(["instrument", "detector"])
T = {n: DatasetType(n, DIMS, te.SC) for n in ("a", "b", "out", "out2", "task_metadata", "task_log")}
D = [te.data_id(0), te.data_id(1)]


class Recorder(Stub):
    def __init__(self, eng):
        self.eng = eng
        self.got, self.put_log, self.inputs_at_put = [], [], []
        self.fail_put = False

    dimensions = te.UNIVERSE

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.got.append(ref)
        return ("value", ref)

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        self.got.append(ref)
        return ("deferred", ref)

    def put(self, obj, ref, /, *, provenance=None):
        if self.fail_put:
            raise OSError("no space")
        self.put_log.append((obj, ref))
        self.inputs_at_put.append([r.id for r in provenance.inputs.values()] if isinstance(provenance.inputs, dict)
                                  else [r.id for r in provenance.inputs])
        self.quantum_id = provenance.quantum_id
        return ref


def mk(eng, tname, d, idname):
    return DatasetRef(T[tname], D[d], run="run", id=eng.uuid(idname))


def setup(eng, n_in=2):
    ins = [mk(eng, "a", k % 2, f"in{k}") for k in range(n_in)]
    other = mk(eng, "b", 0, "inb")
    w = [mk(eng, "out", 0, "w0"), mk(eng, "out", 1, "w1")]
    w2 = mk(eng, "out2", 0, "w2")
    meta, log = mk(eng, "task_metadata", 0, "m"), mk(eng, "task_log", 0, "l")
    q = Quantum(taskName="t", dataId=D[0], inputs={T["a"]: ins, T["b"]: [other]},
                outputs={T["out"]: w, T["out2"]: [w2], T["task_metadata"]: [meta], T["task_log"]: [log]})
    b = Recorder(eng)
    return q, b, QuantumContext(b, q, quantum_id=uuid.UUID(int=9)), ins + [other], w + [w2], [meta, log]


def same(eng, r, s):
    if r.datasetType != s.datasetType or r.dataId != s.dataId:
        return False
    return r.id.int == s.id.int


def member(eng, r, refs):
    return eng.any_of(*[same(eng, r, s) for s in refs]) if refs else False


def neg(eng, c):
    return (~c if eng.symbolic and not isinstance(c, bool) else not c)


def probe(eng, ops):
    """Arbitrary refs through get/put."""
    q, b, ctx, ins, outs, special = setup(eng)
    written = []
    for k, op in enumerate(ops):
        r = mk(eng, eng.choice(f"t{k}", list(T)), eng.choice(f"d{k}", (0, 1)), f"probe{k}")
        if op == "get":
            deferred = bool(eng.bool(f"def{k}"))
            n = len(b.got)
            kind, v = outcome(ctx.get, DeferredDatasetRef(datasetRef=r) if deferred else r)
            ok = member(eng, r, ins)
            if kind == "ok":
                eng.check(ok, "a dataset that is not an input of the quantum was read")
                eng.check(v == (("deferred" if deferred else "value"), r) and len(b.got) == n + 1, "wrong value returned")
                eng.reach("read")
            else:
                eng.check(isinstance(v, ValueError), "wrong error for a foreign input", repr(v))
                eng.check(neg(eng, ok), "an input of the quantum cannot be read")
                eng.check(len(b.got) == n, "the butler was asked for a foreign dataset")
                eng.reach("read-refused")
        else:
            n = len(b.put_log)
            b.fail_put = op == "put-fail"
            kind, v = outcome(ctx.put, 5, r)
            ok = member(eng, r, outs)
            if kind == "ok":
                eng.check(ok, "a dataset that is not a (data) output of the quantum was written")
                eng.check(len(b.put_log) == n + 1 and b.put_log[-1] == (5, r), "wrong dataset written")
                written.append(r)
                eng.reach("write")
            elif op == "put-fail" and isinstance(v, OSError):
                eng.check(ok, "the butler was asked to write a foreign dataset")
            else:
                eng.check(isinstance(v, ValueError), "wrong error for a foreign output", repr(v))
                eng.check(neg(eng, ok), "an output of the quantum cannot be written")
                eng.check(len(b.put_log) == n, "the butler was asked to write a foreign dataset")
                eng.reach("write-refused")
    for x in ctx.outputsPut:
        eng.check(eng.any_of(*[eng.both(x[0] == w.datasetType, x[1] == w.dataId, x[2].int == w.id.int) for w in written]),
                  "an output is recorded as written although it was not")
    for w in written:
        eng.check(eng.any_of(*[eng.both(x[0] == w.datasetType, x[1] == w.dataId, x[2].int == w.id.int)
                               for x in ctx.outputsPut]), "a written output is not recorded as written")


def connections(eng, n_in):
    """Whole-connection get/put: order, provenance, length mismatches."""
    ids = iter(range(1, 100))

    def fixed(tname, d):
        return DatasetRef(T[tname], D[d], run="run", id=uuid.UUID(int=next(ids)))

    ins = [fixed("a", k % 2) for k in range(n_in)]
    other = fixed("b", 0)
    w = [fixed("out", 0), fixed("out", 1)]
    w2 = fixed("out2", 0)
    foreign = fixed("a", 0)
    q = Quantum(taskName="t", dataId=D[0], inputs={T["a"]: ins, T["b"]: [other]},
                outputs={T["out"]: w, T["out2"]: [w2], T["task_metadata"]: [fixed("task_metadata", 0)]})
    b = Recorder(eng)
    ctx = QuantumContext(b, q, quantum_id=uuid.UUID(int=900))
    iq = InputQuantizedConnection()
    sel = [r for k, r in enumerate(ins) if eng.bool(f"use{k}")]
    bad = bool(eng.bool("foreign"))
    none = bool(eng.bool("none"))
    defer = bool(eng.bool("defer"))
    lst = [DeferredDatasetRef(datasetRef=r) if defer else r for r in sel] + ([None] if none else []) \
        + ([foreign] if bad else [])
    iq.a = lst
    if eng.bool("has_b"):
        iq.b = other
    as_list = bool(eng.bool("as_list"))
    kind, v = outcome(ctx.get, lst if as_list else iq)
    if bad:
        eng.check(kind == "exc" and isinstance(v, ValueError), "a foreign dataset in a list was read", repr(v))
        eng.check(foreign not in b.got, "the butler was asked for a foreign dataset")
        eng.reach("foreign")
        return
    want = [(("deferred" if defer else "value"), r) for r in sel] + ([None] if none else [])
    eng.check(kind == "ok", "reading inputs failed", repr(v))
    if as_list:
        eng.check(v == want, "values are not returned in the order of the refs")
        read = list(sel)
    else:
        eng.check(v["a"] == want and (("b" in v) == hasattr(iq, "b")), "connection values differ")
        read = list(sel) + ([other] if hasattr(iq, "b") else [])
        if hasattr(iq, "b"):
            eng.check(v["b"] == ("value", other), "scalar connection value differs")
    # outputs
    oq = OutputQuantizedConnection()
    oq.out = list(w)
    oq.out2 = w2
    n_val = eng.choice("n_val", (0, 1, 2, 3))
    give2 = bool(eng.bool("give2"))
    give1 = bool(eng.bool("give1"))
    s = Struct(**({"out": [f"v{k}" for k in range(n_val)]} if give1 else {}), **({"out2": "z"} if give2 else {}))
    how = eng.choice("how", ("struct", "list", "bad-type"))
    if how == "bad-type":
        kind, v = outcome(ctx.put, {"out": [1, 2]}, oq)
        eng.check(kind == "exc" and isinstance(v, ValueError) and not b.put_log, "values of the wrong kind were written")
        return
    if how == "list":
        kind, v = outcome(ctx.put, [f"v{k}" for k in range(n_val)], list(w))
        expect = list(zip([f"v{k}" for k in range(n_val)], w)) if n_val == 2 else None
    else:
        kind, v = outcome(ctx.put, s, oq)
        expect = (list(zip([f"v{k}" for k in range(n_val)], w)) if give1 else []) + ([("z", w2)] if give2 else [])
        if give1 and n_val != 2:
            expect = None
    if expect is None:
        eng.check(kind == "exc" and isinstance(v, ValueError), "a wrong number of values was accepted", repr(v))
        eng.check(not [x for x in b.put_log if x[1] in w], "part of a mismatched connection was written")
        eng.reach("mismatch")
    else:
        eng.check(kind == "ok", "writing outputs failed", repr(v))
        eng.check(sorted(b.put_log, key=repr) == sorted(expect, key=repr), "a value went to the wrong dataset",
                  f"{b.put_log} {expect}")
        eng.check({x[2] for x in ctx.outputsPut} == {r.id for _, r in expect}, "recorded outputs differ from those written")
        if expect:
            eng.check(all(set(p) == {r.id for r in read} for p in b.inputs_at_put), "provenance lists the wrong inputs")
            eng.check(b.quantum_id == uuid.UUID(int=900), "provenance names the wrong quantum")
        eng.reach("written")


def cases(tier):
    rw = ("read", "read-refused", "write", "write-refused")
    out = [
        Case("get-put", probe, dict(ops=("get", "put")), "any two refs (symbolic IDs)", rw, time_cap=400),
        Case("put-put", probe, dict(ops=("put", "put")), "any two refs", ("write", "write-refused"), time_cap=400),
        Case("put-get", probe, dict(ops=("put", "get")), "any two refs", rw, time_cap=400),
        Case("put-fail", probe, dict(ops=("put-fail", "put")), "a failing write, then another", ("write",), time_cap=400),
        Case("connections-2", connections, dict(n_in=2), "2 inputs, any subset, all put shapes",
             ("foreign", "mismatch", "written")),
    ]
    if tier == "thorough":
        out += [
            Case("get-put-put", probe, dict(ops=("get", "put", "put")), "three ops", rw, time_cap=3000, validate_every=500),
            Case("connections-4", connections, dict(n_in=4), "4 inputs", ("written",), time_cap=3000, validate_every=500),
        ]
    return out
