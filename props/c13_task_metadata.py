"""C13: task metadata behaves as one nested key/value store and survives serialisation."""

from __future__ import annotations

import math
from fractions import Fraction
from typing import Any

import numpy as np
import pydantic
from lsst.pipe.base import TaskMetadata

from symx.core import outcome
from symx.runner import Case

ASSUMPTIONS = ["keys, value kinds and operations are symbolic choices from the listed sets; the values themselves are "
               "representatives (including NaN, infinities, big integers and numeric-looking strings)"]
KEYS = ("a", "b", "a.x", "a.x.z", "b.y")
VALUES: dict[str, Any] = dict(
    int=3, big=2**70, bool=True, float=1.5, nan=float("nan"), inf=float("-inf"), str="text", numstr="1.5", nanstr="nan", empty="",
    ints=[1, 2], floats=[0.5, float("nan")], strs=["1", "x"], bools=[True, False], none_list=[], tup=(4, 5),
    dict={"x": 7}, nested={"x": {"z": "s"}, "w": [1.0]}, bad=None, badlist=[1, "x"], badelem=[None], baddict={"x": None},
    badobj=object(), intfloat=[1, 2.0],
    npint=np.int64(-3), npfloat=np.float32(0.5), npints=[np.int64(1), np.int64(-2)], npfloats=(np.float64(-0.5), np.float64(2)),
    npmixed=[np.int64(1), np.float64(2)], nparray=np.array([1, 2]), frac=Fraction(1, 2),
)
BAD = {"bad", "badlist", "badelem", "baddict", "badobj", "intfloat", "npmixed", "nparray"}
SETS = dict(
    first=("int", "str", "ints", "none_list", "dict", "float", "nested"),
    all=tuple(VALUES),
    types=("int", "big", "bool", "float", "nan", "inf", "str", "numstr", "nanstr", "empty", "ints", "floats", "strs", "bools",
           "none_list", "tup", "dict", "nested"),
    add=("int", "bool", "float", "str", "ints", "strs", "none_list", "tup", "dict", "bad", "badlist", "badelem"),
    few=("int", "ints", "dict", "bad", "str"),
)


class Refused(Exception):
    pass


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return float(v) if isinstance(v, Fraction) else v


def m_set(d, key, kind):
    if kind in BAD:
        raise Refused(ValueError)
    head, _, rest = key.partition(".")
    if not rest:
        d[head] = plain(VALUES[kind])
        return
    child = d.get(head)
    if not isinstance(child, dict):
        child = {}
    m_set(child, rest, kind)
    d[head] = child


def m_add(d, key, kind):
    head, _, rest = key.partition(".")
    if rest:
        if not isinstance(d.get(head), dict):
            raise Refused(KeyError)
        return m_add(d[head], rest, kind)
    if kind in BAD or isinstance(VALUES[kind], dict):
        raise Refused(ValueError)
    v = plain(VALUES[kind])
    v = v if isinstance(v, list) else [v]
    cur = d.get(head, [])
    if isinstance(cur, dict):
        raise Refused(ValueError)
    cur = cur if isinstance(cur, list) else [cur]
    if cur and v and type(cur[0]) is not type(v[0]):
        raise Refused(ValueError)
    d[head] = cur + v


def m_del(d, key):
    head, _, rest = key.partition(".")
    if head not in d or (rest and not isinstance(d[head], dict)):
        raise Refused(KeyError)
    if rest:
        m_del(d[head], rest)
    else:
        del d[head]


def m_find(d, key):
    head, _, rest = key.partition(".")
    if head not in d:
        return None, False
    if rest:
        return m_find(d[head], rest) if isinstance(d[head], dict) else (None, False)
    return d[head], True


def eq(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and set(x) == set(y) and all(eq(x[k], y[k]) for k in x)
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and all(eq(i, j) for i, j in zip(x, y))
    if type(x) is not type(y):
        return False
    return x == y or (isinstance(x, float) and math.isnan(x) and math.isnan(y))


class Holder(pydantic.BaseModel):
    """A parent model, as the provenance files use."""

    md: TaskMetadata | None


def compare(eng, md, d, deep):
    eng.check(eq(d, md.to_dict()), "contents are wrong", f"{md.to_dict()} expected {d}")
    eng.check(len(md) == len(d) and sorted(md) == sorted(d) and sorted(md.keys()) == sorted(d), "top-level keys are wrong or double")
    eng.check(sorted(k for k, _ in md.items()) == sorted(d), "items are wrong or double")
    names, params = set(), set()

    def walk(x, pre):
        for k, v in x.items():
            names.add(pre + k)
            if isinstance(v, dict):
                walk(v, pre + k + ".")
            else:
                params.add(pre + k)

    walk(d, "")
    eng.check(md.names() == names, "names() is wrong", f"{md.names()}")
    eng.check(md.paramNames(topLevelOnly=False) == params, "paramNames() is wrong")
    eng.check(md.paramNames(topLevelOnly=True) == {k for k, v in d.items() if not isinstance(v, dict)}, "paramNames(top) is wrong")
    for key in KEYS + ("c", "a.q", "b.y.w", "a.w", "a.x.z.r"):
        v, found = m_find(d, key)
        eng.check((key in md) == found, "membership is wrong", key)
        kind, got = outcome(lambda: md[key])
        arr = outcome(md.getArray, key)
        if not found:
            eng.check(kind == "exc" and isinstance(got, KeyError), "a missing key was found", key)
            eng.check(arr[0] == "exc" and isinstance(arr[1], KeyError), "a missing array was found", key)
            eng.check(md.get(key, "dflt") == "dflt", "default not returned")
            eng.check(md.get_dict(key) == {}, "get_dict of a missing key is not empty")
        elif isinstance(v, dict):
            eng.check(kind == "ok" and isinstance(got, TaskMetadata) and eq(got.to_dict(), v), "nested metadata is wrong", key)
            eng.check(eq(md.get_dict(key), v), "get_dict is wrong", key)
        elif isinstance(v, list):
            eng.check(arr[0] == "ok" and eq(arr[1], v), "getArray is wrong", key)
            if v:
                eng.check(kind == "ok" and eq(got, v[-1]) and eq(md.getScalar(key), v[-1]), "last element is wrong", key)
        else:
            eng.check(kind == "ok" and eq(got, v) and eq(md.getScalar(key), v), "value is wrong", key)
            eng.check(arr[0] == "ok" and eq(arr[1], [v]), "getArray of a scalar is wrong", key)
    if deep:
        back = TaskMetadata.model_validate_json(md.model_dump_json())
        eng.check(eq(back.to_dict(), d), "JSON round trip changes the contents", f"{back.to_dict()} expected {d}")
        back = TaskMetadata.model_validate(md.model_dump())
        eng.check(eq(back.to_dict(), d), "model round trip changes the contents", f"{back.to_dict()} expected {d}")
        back = TaskMetadata.from_dict(md.to_dict())
        eng.check(eq(back.to_dict(), d), "dict round trip changes the contents")
        eng.check(eq(TaskMetadata.from_metadata(Legacy(d)).to_dict(), legacy(d)), "conversion of a property set is wrong")
        # inf/nan become null in a parent model and come back as NaN
        back = Holder.model_validate_json(Holder(md=md).model_dump_json()).md
        eng.check(eq(back.to_dict(), nulls(d)), "JSON round trip in a parent model changes the contents")


def nulls(v):
    if isinstance(v, dict):
        return {k: nulls(x) for k, x in v.items()}
    if isinstance(v, list):
        return [nulls(x) for x in v]
    return float("nan") if isinstance(v, float) and not math.isfinite(v) and _PARENT_NULLS else v


def _probe():
    return "null" in Holder(md=TaskMetadata(scalars={"a": float("inf")})).model_dump_json()


_PARENT_NULLS = _probe()


class Legacy:
    def __init__(self, d):
        self.flat = {}
        self._walk(d, "")

    def _walk(self, d, pre):
        for k, v in d.items():
            if isinstance(v, dict):
                self._walk(v, pre + k + ".")
            else:
                self.flat[pre + k] = v if isinstance(v, list) else [v]

    def paramNames(self, topLevelOnly=True):
        return list(self.flat)

    def getArray(self, k):
        return self.flat[k]


def legacy(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            sub = legacy(v)
            if sub:
                out[k] = sub
        else:
            out[k] = v[0] if isinstance(v, list) and len(v) == 1 else v
    return out


def history(eng, steps):
    md, d = TaskMetadata(), {}
    for s, (ops, keys, kinds) in enumerate(steps):
        op = eng.choice(f"op{s}", ops)
        key = eng.choice(f"key{s}", keys)
        kind = None if op == "del" else eng.choice(f"kind{s}", SETS[kinds])
        want = None
        new = plain(d)
        try:
            if op == "set":
                m_set(new, key, kind)
            elif op == "add":
                m_add(new, key, kind)
            else:
                m_del(new, key)
        except Refused as r:
            want = r.args[0]
        if op == "set":
            if kind in ("dict", "nested") and eng.bool(f"as_md{s}"):
                k, v = outcome(md.__setitem__, key, TaskMetadata.from_dict(VALUES[kind]))
            elif kind in ("dict", "nested"):
                k, v = outcome(md.set_dict, key, VALUES[kind])
            else:
                k, v = outcome(md.__setitem__, key, VALUES[kind])
        elif op == "add":
            k, v = outcome(md.add, key, VALUES[kind])
        else:
            k, v = outcome(md.__delitem__, key)
        if want is not None:
            eng.check(k == "exc" and isinstance(v, want), "an invalid operation was accepted or failed the wrong way",
                      f"{op} {key} {kind}: {v!r}")
            eng.reach("refused")
        else:
            eng.check(k == "ok", "a valid operation failed", f"{op} {key} {kind}: {v!r}")
            d = new
            eng.reach(op)
        compare(eng, md, d, s == len(steps) - 1)


def cases(tier):
    t = tier == "thorough"
    cap = 3000 if t else 500
    S, A = ("set",), ("set", "add", "del")
    out = []
    for i, key in enumerate(KEYS):
        out.append(Case(f"two-{key}", history, dict(steps=((S, (key,), "first"), (A, KEYS, "all"))),
                        f"set {key}, then any operation", ("set", "add", "del", "refused"), time_cap=cap))
    out += [
        Case("kinds", history, dict(steps=((S, ("a", "a.x", "b.y"), "types"),)), "every value kind", ("set",), time_cap=cap),
        Case("adds", history, dict(steps=((("add",), ("a",), "add"), (("add",), ("a", "a.x"), "add"), (("add", "del"), ("a",), "few"))),
             "runs of add()", ("add", "refused"), time_cap=cap),
        Case("three", history, dict(steps=((S, ("a", "a.x"), "few"), (A, ("a", "a.x", "b"), "few"), (A, ("a", "a.x"), "few"))),
             "three operations", ("set", "add", "del", "refused"), time_cap=cap),
    ]
    if t:
        for key in KEYS:
            out.append(Case(f"deep-{key}", history, dict(steps=((S, (key,), "first"), (A, KEYS, "few"), (A, KEYS, "all"))),
                            "three operations, all kinds", ("set", "add", "del"), time_cap=cap, validate_every=500))
    return out
