"""C18: configuration overrides apply in order, each exactly as written."""

from __future__ import annotations

import copy
import hashlib
import os
import tempfile

import lsst.pex.config as pexConfig
import lsst.pipe.base.connectionTypes as cT
from lsst.pipe.base import PipelineTaskConfig, PipelineTaskConnections
from lsst.pipe.base.configOverrides import ConfigOverrides
from lsst.pipe.base.pipelineIR import ConfigIR, ParametersIR

from symx.core import outcome
from symx.runner import Case

ASSUMPTIONS = ["one config class with scalar, list, dict and nested fields; overrides, their order and their values are symbolic "
               "choices from the listed sets; override files are real files"]
NUM = 7  # visible to override strings: they may name variables of the config's module
TXT = "from module"


class Sub(pexConfig.Config):
    x = pexConfig.Field("x", dtype=int, default=0)
    deep = pexConfig.Field("y", dtype=str, default="d", optional=True)


class Mid(pexConfig.Config):
    inner = pexConfig.ConfigField("inner", dtype=Sub)
    x = pexConfig.Field("x", dtype=int, default=0)


class Conn(PipelineTaskConnections, dimensions=()):
    a = cT.Input(name="a", storageClass="StructuredDataDict", dimensions=())


class Cfg(PipelineTaskConfig, pipelineConnections=Conn):
    i = pexConfig.Field("i", dtype=int, default=0)
    f = pexConfig.Field("f", dtype=float, default=0.5)
    s = pexConfig.Field("s", dtype=str, default="s", optional=True)
    b = pexConfig.Field("b", dtype=bool, default=False)
    l = pexConfig.ListField("l", dtype=int, default=[1])
    ls = pexConfig.ListField("ls", dtype=str, default=["u"])
    d = pexConfig.DictField("d", keytype=str, itemtype=int, default={"k": 1})
    sub = pexConfig.ConfigField("sub", dtype=Sub)
    mid = pexConfig.ConfigField("mid", dtype=Mid)


_dir: list = []


def script(text):
    if not _dir or _dir[0] != os.getpid():
        _dir[:] = [os.getpid(), tempfile.mkdtemp(prefix="c18-")]
    path = os.path.join(_dir[1], hashlib.md5(text.encode()).hexdigest() + ".py")
    with open(path, "w") as f:
        f.write(text)
    return path


def state(c):
    return dict(i=c.i, f=c.f, s=c.s, b=c.b, l=list(c.l), ls=list(c.ls), d=dict(c.d), x=c.sub.x, deep=c.sub.deep, mx=c.mid.x,
                mix=c.mid.inner.x, a=c.connections.a)


class Instrument:
    """Applies instrument defaults: i becomes 10 i + 9."""

    def __init__(self, names):
        self.names = names

    def applyConfigOverrides(self, name, config):
        self.names.append(name)
        config.i = config.i * 10 + 9


# every step multiplies i by ten and adds its own digit, so the order shows in the value
def order(eng, n):
    ov, want, c, names = ConfigOverrides(), dict(i=0, x=0, mix=0), Cfg(), []
    ref = state(c)
    if eng.bool("params"):
        ov.addParameters(ParametersIR({"p": 5}))
    else:
        ov.addParameters(ParametersIR({"p": 4}))
        ov.addParameters(ParametersIR({"p": 5}))
    for k in range(n):
        op = eng.choice(f"op{k}", ("value", "python", "file", "instrument", "nested", "deep", "python-param", "file-param"))
        dgt = k + 1
        if op == "value":
            ov.addValueOverride("i", dgt)
            want["i"] = dgt
        elif op == "python":
            ov.addPythonOverride(f"config.i = config.i * 10 + {dgt}\nconfig.sub.x = config.sub.x * 10 + {dgt}")
            want["i"] = want["i"] * 10 + dgt
            want["x"] = want["x"] * 10 + dgt
        elif op == "file":
            ov.addFileOverride(script(f"config.i = config.i * 10 + {dgt}\nconfig.mid.inner.x = config.mid.inner.x * 10 + {dgt}\n"))
            want["i"] = want["i"] * 10 + dgt
            want["mix"] = want["mix"] * 10 + dgt
        elif op == "instrument":
            ov.addInstrumentOverride(Instrument(names), f"task{dgt}")
            want["i"] = want["i"] * 10 + 9
        elif op == "nested":
            ov.addValueOverride("sub.x", dgt)
            want["x"] = dgt
        elif op == "deep":
            ov.addValueOverride("mid.inner.x", dgt)
            want["mix"] = dgt
        elif op == "python-param":
            ov.addPythonOverride("config.i = config.i * 10 + parameters.p")
            want["i"] = want["i"] * 10 + 5
        else:
            ov.addFileOverride(script("config.i = config.i * 10 + parameters.p\n"))
            want["i"] = want["i"] * 10 + 5
    k, v = outcome(ov.applyTo, c)
    eng.check(k == "ok", "applying overrides failed", repr(v))
    eng.check(state(c) == {**ref, **want}, "overrides were not applied in order", f"{state(c)} {want}")
    # the overrides can be applied again, to another config, with the same effect
    c2 = Cfg()
    ov.applyTo(c2)
    eng.check(state(c2) == state(c), "applying overrides twice gives different configs")
    eng.reach("applied")


VALUES = {
    "i": [("3", 3), ("-3", -3), (4, 4), ("NUM", 7), (-1, -1)],
    "f": [("1.5", 1.5), ("-0.25", -0.25), ("2", 2.0), (3, 3.0), ("1e3", 1000.0)],
    "s": [("word", "word"), ("'quoted'", "quoted"), ("two words", "two words"), ("a+b", "a+b"), ("TXT", "from module"), ("None", None),
          ("a.b", "a.b"), ("x:y", "x:y"), ("", ""), ("f(1)", "f(1)"), ("~z", "~z"), (None, None)],
    "b": [("True", True), (False, False), (True, True)],
    "l": [("[1, 2]", [1, 2]), ("(3,)", [3]), ([4, "5"], [4, 5]), ("[-1]", [-1]), ([], []), (["NUM"], [7])],
    "ls": [("[a, 'b']", ["a", "b"]), (["x", "TXT"], ["x", "from module"]), ("('q', r)", ["q", "r"]), (["two words"], ["two words"])],
    "d": [("{'a': 1}", {"a": 1}), ("{q: -2}", {"q": -2}), ({"z": "3"}, {"z": 3}), ({}, {}), ({"n": "NUM", "m": 2}, {"n": 7, "m": 2})],
    "sub.deep": [("word", "word"), ("'1'", "1")],
}
BAD = [("i", "word"), ("i", "'3'"), ("nope", 1), ("sub.nope", 1), ("l", "word"), ("b", "maybe"), ("nope.x", 1)]


def values(eng):
    """A value override sets exactly its field to exactly its value."""
    c = Cfg()
    ref = state(c)
    if eng.bool("bad"):
        field, text = eng.choice("badcase", BAD)
        ov = ConfigOverrides()
        ov.addValueOverride(field, text)
        k, v = outcome(ov.applyTo, c)
        eng.check(k == "exc", "a wrong override was accepted", f"{field} {text!r}")
        eng.check(state(c) == ref, "a refused override changed the config")
        eng.reach("refused")
        return
    field = eng.choice("field", VALUES)
    text, want = eng.choice(f"val_{field}", VALUES[field])
    given = copy.deepcopy(text)
    ov = ConfigOverrides()
    if eng.bool("first"):
        ov.addValueOverride("i", 1)
        ref["i"] = 1
    ov.addValueOverride(field, text)
    k, v = outcome(ov.applyTo, c)
    eng.check(k == "ok", "a valid override was refused", f"{field} {text!r} {v!r}")
    name = {"sub.deep": "deep"}.get(field, field)
    got = state(c)
    eng.check(got == {**ref, name: want} and type(got[name]) is type(want), "an override set something else", f"{field} {text!r} {got[name]!r}")
    eng.check(text == given, "an override changed its own value")
    eng.reach("set")


def blocks(eng, n, instrument=True):
    """applyConfigOverrides: instrument defaults first, then the blocks in order; parameters are resolved."""
    names = []
    inst = Instrument(names) if instrument and eng.bool("instrument") else None
    par = ParametersIR({"p": 5, "t": "text", "lst": [8, 9]})
    before = copy.deepcopy(par.mapping)
    c = Cfg()
    ref = state(c)
    i = 9 if inst else 0
    s, lst = "s", [1]
    confs, refuse = [], False
    for k in range(n):
        dgt = k + 1
        cf = ConfigIR()
        if eng.bool(f"file{k}"):
            cf.file = [script(f"config.i = config.i * 10 + {dgt}\n"), script("config.i = config.i * 10 + parameters.p\n")]
            i = (i * 10 + dgt) * 10 + 5
        if eng.bool(f"python{k}"):
            cf.python = f"config.i = config.i * 10 + {dgt}"
            i = i * 10 + dgt
        r = eng.choice(f"rest{k}", ("none", "i", "param", "text", "list", "unknown"))
        if r == "i":
            cf.rest = {"i": dgt}
            i = dgt
        elif r == "param":
            cf.rest = {"i": "parameters.p"}
            i = 5
        elif r == "text":
            cf.rest = {"s": "parameters.t", "b": True}
            s = "text"
            ref["b"] = True
        elif r == "list":
            cf.rest = {"l": "parameters.lst"}
            lst = [8, 9]
        elif r == "unknown":
            cf.rest = {"s": "parameters.zz"}
            s = "parameters.zz"
        confs.append(cf)
    if eng.bool("dataid"):
        confs.append(ConfigIR(dataId={"visit": 1}, rest={"i": 1}))
        refuse = True
    given = copy.deepcopy(confs)
    k, v = outcome(c.applyConfigOverrides, inst, "dflt", confs if confs or eng.bool("empty") else None, par, "label")
    eng.check(confs == given and par.mapping == before, "applying overrides changed the pipeline definition")
    if refuse:
        eng.check(k == "exc" and isinstance(v, NotImplementedError), "a data-ID specialised block was applied", repr(v))
        eng.reach("refused")
        return
    eng.check(k == "ok", "applying failed", repr(v))
    eng.check(state(c) == {**ref, "i": i, "s": s, "l": lst}, "the configuration is wrong", f"{state(c)} i={i} s={s}")
    eng.check(names == (["dflt"] if inst else []), "instrument defaults were applied to the wrong task", f"{names}")
    eng.reach("applied")


def readonly(eng):
    """Parameters cannot be changed by override code."""
    par = ParametersIR({"p": 5})
    ov = ConfigOverrides()
    ov.addParameters(par)
    how = eng.choice("how", ("python", "file"))
    text = eng.choice("text", ("parameters.p = 6", "parameters.q = 6"))
    if how == "python":
        ov.addPythonOverride(text)
    else:
        ov.addFileOverride(script(text + "\n"))
    k, v = outcome(ov.applyTo, Cfg())
    eng.check(k == "exc", "override code changed the parameters")
    eng.check(par.mapping == {"p": 5}, "override code changed the parameters")
    eng.reach("refused")


def cases(tier):
    t = tier == "thorough"
    cap = 3000 if t else 400
    return [
        Case("order", order, dict(n=4 if t else 3), f"sequences of {4 if t else 3} overrides", ("applied",), time_cap=cap, validate_every=200),
        Case("values", values, {}, "listed values per field kind", ("set", "refused"), time_cap=cap),
        Case("blocks-2", blocks, dict(n=2), "two config blocks", ("applied", "refused"), time_cap=cap, validate_every=200),
        Case("blocks-0", blocks, dict(n=0), "no config block", ("applied", "refused"), time_cap=cap),
        Case("readonly", readonly, {}, "assignments to parameters", ("refused",), time_cap=cap),
    ] + ([Case("blocks-3", blocks, dict(n=3, instrument=False), "three config blocks", ("applied",), time_cap=cap, validate_every=500)] if t else [])
