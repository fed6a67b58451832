"""C15: caching never changes what a butler client sees."""

from __future__ import annotations

import copy

from lsst.daf.butler import DatasetRef, DatasetType, LimitedButler, StorageClass, StorageClassFactory
from lsst.pipe.base.caching_limited_butler import CachingLimitedButler

from symx.core import Stub, outcome
from symx.runner import Case

from . import _task_env as te

ASSUMPTIONS = [
    "the wrapped butler is a stand-in store; dataset IDs are symbolic 128-bit values (so two refs may or may not be the "
    "same dataset); stored datasets change only through the caching butler; one storage class conversion, in one direction",
]
DIMS = te.UNIVERSE.conform(["instrument", "detector"])
DICT = StorageClassFactory().getStorageClass(te.SC)
COMP = StorageClass("VerifComposite", pytype=dict, components={"x": DICT, "y": DICT})
T = {"t": DatasetType("t", DIMS, DICT), "u": DatasetType("u", DIMS, DICT), "c": DatasetType("c", DIMS, COMP)}


def keys_of(d):
    """The (one-way) conversion of a dataset to the other storage class."""
    return sorted(f"{k}={v}" for k, v in d.items())


KEYS = StorageClass("VerifKeys", pytype=list, converters={"dict": f"{__name__}.keys_of"})
_F = StorageClassFactory()
if "VerifKeys" not in _F:
    _F.registerStorageClass(KEYS)
if "VerifComposite" not in _F:
    _F.registerStorageClass(COMP)


class Wrapped(Stub):
    storageClasses = _F
    dimensions = te.UNIVERSE
    _metrics = None
    _datastore = None

    def __init__(self, eng):
        self.eng = eng
        self.items = []  # (type name, id, obj)
        self.fail_put = False
        self.n_get = 0

    def find(self, ref):
        parent, comp = ref.datasetType.nameAndComponent()
        for n, i, o in self.items:
            if n == parent and i == ref.id:
                return copy.deepcopy(o if comp is None else {"comp": o["v"]})
        return None

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.n_get += 1
        v = self.find(ref)
        if v is None:
            raise FileNotFoundError(str(ref.datasetType.name))
        if parameters:
            v["params"] = dict(parameters)
        if (storageClass if isinstance(storageClass, str) else getattr(storageClass, "name", None)) == "VerifKeys":
            v = keys_of(v)
        return v

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        if self.find(ref) is None:
            raise LookupError("no dataset")
        return ("deferred", self.find(ref))

    def stored_many(self, refs):
        return {r: self.find(r) is not None for r in refs}

    def put(self, obj, ref, /, *, provenance=None):
        if self.fail_put:
            raise OSError("disk full")
        if self.find(ref) is not None:
            raise RuntimeError("already stored")
        self.items.append((ref.datasetType.name, ref.id, copy.deepcopy(obj)))
        return ref

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        self.last_prune = (list(refs), disassociate, unstore, list(tags), purge)
        keep = []
        for n, i, o in self.items:
            if not any(n == r.datasetType.name and i == r.id for r in refs):
                keep.append((n, i, o))
        self.items = keep

    def isWriteable(self):
        return True

    def close(self):
        self.closed = True


def history(eng, ops, on_put, on_get, no_copy, names=("t", "t"), same=False):
    """Any sequence of operations gives the same answers as the wrapped butler."""
    w = Wrapped(eng)
    b = CachingLimitedButler(w, cache_on_put=frozenset(on_put), cache_on_get=frozenset(on_get), no_copy_on_cache=frozenset(no_copy))
    eng.check(isinstance(b, LimitedButler), "not a butler")
    refs = [DatasetRef(T[n], te.data_id(0 if same else k), run="r", id=eng.uuid(f"id{k}")) for k, n in enumerate(names)]
    n_obj = 0
    for s, op in enumerate(ops):
        if op == "any":
            op = eng.choice(f"op{s}", ("put", "get", "put-fail", "prune", "stored", "get-par"))
        k = eng.choice(f"ref{s}", range(len(refs)))
        ref = refs[k]
        if ref.datasetType.name == "c" and op in ("get", "stored") and eng.bool(f"comp{s}"):
            ref = ref.makeComponentRef("x")
        if op in ("put", "put-fail"):
            w.fail_put = op == "put-fail"
            obj = {"v": n_obj, "l": [n_obj]}
            n_obj += 1
            there = w.find(ref) is not None
            kind, v = outcome(b.put, obj, ref)
            eng.check((kind == "ok") == (op == "put" and not there), "put succeeded or failed where the wrapped butler does not", repr(v))
            if kind == "ok":
                eng.check(v == ref, "put returned another ref")
                eng.reach("put")
            else:
                eng.check(isinstance(v, (OSError, RuntimeError)), "the wrapped butler's error was replaced", repr(v))
                eng.reach("put-failed")
        elif op == "get-conv":
            want = w.find(ref)
            kind, v = outcome(b.get, ref, storageClass=eng.choice(f"sc{s}", ("VerifKeys", KEYS)))
            if want is None:
                eng.check(kind == "exc" and isinstance(v, FileNotFoundError), "a dataset that is not stored was returned", repr(v))
            else:
                eng.check(kind == "ok" and v == keys_of(want), "get returned another storage class or another dataset", repr(v))
                eng.reach("converted")
                if ref.datasetType.name not in no_copy:
                    v.append("spoiled")
        elif op in ("get", "get-par"):
            par = {"p": 1} if op == "get-par" else None
            want = w.find(ref)
            n = w.n_get
            if op == "get-par" and ref.datasetType.name in (set(on_put) | set(on_get)):
                # a cached dict cannot be subset: only the uncached answer is compared
                kind, v = outcome(b.get, ref, parameters=par)
                if w.n_get == n:
                    continue
            else:
                kind, v = outcome(b.get, ref, parameters=par)
            if want is None:
                eng.check(kind == "exc" and isinstance(v, FileNotFoundError), "a dataset that is not stored was returned", repr(v))
                eng.reach("missing")
            else:
                if par:
                    want["params"] = par
                eng.check(kind == "ok" and v == want, "get returned something else than what is stored", f"{v!r} {want!r}")
                eng.reach("cached" if w.n_get == n else "read")
                if ref.datasetType.name not in no_copy:
                    v["spoiled"] = True  # the caller owns what it got
                    if "l" in v:
                        v["l"].append("spoiled")
        elif op == "prune":
            kind, v = outcome(b.pruneDatasets, iter([refs[k]]), disassociate=False, unstore=True, purge=True)
            eng.check(kind == "ok", "prune failed", repr(v))
            r, dis, uns, tags, purge = w.last_prune
            eng.check(r == [refs[k]] and not dis and uns and tags == [] and purge, "prune request was changed")
            eng.reach("pruned")
        else:
            which = [ref] + [r for i, r in enumerate(refs) if i != k]
            want = {r: w.find(r) is not None for r in which}
            got = b.stored_many(iter(which))
            eng.check(got == want, "existence differs from the wrapped butler", f"{got} {want}")
            kind, v = outcome(b.getDeferred, which[0])
            eng.check((kind == "ok") == want[which[0]], "getDeferred differs from the wrapped butler")
            eng.reach("stored")


def efficiency(eng, on):
    """A cached dataset type is not read twice in a row."""
    w = Wrapped(eng)
    b = CachingLimitedButler(w, cache_on_put=frozenset("t" if on == "put" else ""), cache_on_get=frozenset("t" if on == "get" else ""))
    refs = [DatasetRef(T["t"], te.data_id(k), run="r", id=eng.uuid(f"id{k}")) for k in range(2)]
    if on == "put":
        b.put({"v": 1}, refs[0])
    else:
        w.put({"v": 1}, refs[0])
        b.get(refs[0])
    n = w.n_get
    if refs[1].id == refs[0].id:
        eng.check(b.get(refs[1]) == {"v": 1} and w.n_get == n, "a cached dataset was read again")
        eng.reach("hit")
    else:
        eng.check(outcome(b.get, refs[1])[0] == "exc", "another dataset was returned from the cache")
        eng.reach("miss")


def cases(tier):
    t = tier == "thorough"
    n = 4 if t else 3
    cap = 3000 if t else 500
    out = []
    for nm, on_put, on_get, nc in (("put", "t", "", ""), ("get", "", "t", ""), ("both", "t", "t", ""), ("none", "", "", ""),
                                   ("nocopy", "t", "t", "t")):
        out.append(Case(f"same-{nm}", history, dict(ops=("any",) * n, on_put=on_put, on_get=on_get, no_copy=nc, same=nm == "both"),
                        f"{n} operations on two refs of one type with any IDs", ("put", "put-failed", "missing", "pruned", "stored"),
                        time_cap=cap, validate_every=100))
    for nm, on_put, on_get in (("put", "tu", ""), ("get", "u", "tu")):
        out.append(Case(f"types-{nm}", history, dict(ops=("put", "any", "any"), on_put=on_put, on_get=on_get, no_copy="",
                                                     names=("t", "u")), "two dataset types",
                        ("put",), time_cap=cap, validate_every=100))
    for nm, ops in (("component", ("put", "get", "any")), ("component-prune", ("put", "get", "prune", "get"))) + (
            (("component-any", ("put", "any", "any", "any")),) if t else ()):
        out.append(Case(nm, history, dict(ops=ops, on_put=(), on_get=("c.x",), no_copy=(), names=("c", "c")),
                        "a cached component and its parent", ("put", "read", "pruned"), time_cap=cap, validate_every=100))
    for nm, on_put, on_get in (("get", "", "t"), ("put", "t", ""), ("both", "t", "t")):
        out.append(Case(f"convert-{nm}", history, dict(ops=("put", "get-conv", "get", "get-conv"), on_put=on_put, on_get=on_get,
                                                       no_copy="", same=True),
                        "reads as another storage class, two refs with one data ID", ("put", "converted", "missing"), time_cap=cap,
                        validate_every=100))
    out += [Case("hit-put", efficiency, dict(on="put"), "any two IDs", ("hit", "miss")),
            Case("hit-get", efficiency, dict(on="get"), "any two IDs", ("hit", "miss"))]
    return out
