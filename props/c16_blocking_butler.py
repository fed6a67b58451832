"""C16: the blocking butler waits exactly as long as it was told to."""

from __future__ import annotations

import uuid

from lsst.daf.butler import DatasetRef, DatasetType
from lsst.pipe.base import blocking_limited_butler as mod
from lsst.pipe.base.blocking_limited_butler import BlockingLimitedButler

from symx.core import Stub, outcome, patched
from symx.runner import Case

from . import _task_env as te
from . import c15_caching_butler as cb

ASSUMPTIONS = [
    "clock and sleep are stand-ins: times are symbolic reals, every call of the wrapped butler takes a symbolic time of at "
    "least 0, sleep() advances the clock by what was asked plus a symbolic delay; a dataset appears at a symbolic instant "
    "and stays; timeouts up to 1.4 s (thorough 2.4 s) or none",
]
DIMS = te.UNIVERSE.conform(["instrument", "detector"])
T = {n: DatasetType(n, DIMS, te.SC) for n in ("t", "u", "v")}
POLL = 0.5


class Clock(Stub):
    """Stands in for the time module."""

    def __init__(self, eng, jitter):
        self.eng, self.now, self.k, self.slept, self.jitter = eng, eng.real("t0", 0, 1000), 0, [], jitter

    def tick(self, lo=0):
        self.k += 1
        if self.jitter:
            self.now = self.now + self.eng.real(f"dt{self.k}", 0, 0.75)

    def time(self):
        return self.now

    monotonic = perf_counter = time

    def sleep(self, s):
        self.slept.append((self.now, s))
        self.eng.check(s > 0, "sleeps for no time")
        self.now = self.now + s
        self.tick()


class Wrapped(Stub):
    _metrics = None
    _datastore = None
    dimensions = te.UNIVERSE

    def __init__(self, eng, clock, appear):
        self.eng, self.clock, self.appear = eng, clock, appear
        self.polls = []  # (time of answer, number of sleeps so far, {ref: bool})

    def there(self, ref):
        a = self.appear[ref.id]
        return False if a is None else bool(a <= self.clock.now)

    def get(self, ref, /, *, parameters=None, storageClass=None):
        ok = self.there(ref)
        self.args = (parameters, storageClass)
        self.polls.append((self.clock.now, len(self.clock.slept), {ref.id: ok}))
        self.clock.tick()
        if not ok:
            raise FileNotFoundError("not there")
        return ("value", ref.id)

    def stored_many(self, refs):
        got = {r: self.there(r) for r in refs}
        self.polls.append((self.clock.now, len(self.clock.slept), {r.id: x for r, x in got.items()}))
        self.clock.tick()
        return got


def mkref(name, k):
    if "." in name:
        return DatasetRef(cb.T["c"], te.data_id(k), run="r", id=uuid.UUID(int=k + 1)).makeComponentRef(name.split(".")[1])
    return DatasetRef(T[name], te.data_id(k), run="r", id=uuid.UUID(int=k + 1))


def one(eng, kind, tmax, jitter, comp=False, limit=1000):
    """get(): a single dataset."""
    clock = Clock(eng, jitter)
    start = clock.now
    if comp:
        ref = DatasetRef(cb.T["c"], te.data_id(0), run="r", id=uuid.UUID(int=1)).makeComponentRef("x")
        name = "c"
    else:
        ref, name = mkref("t", 0), "t"
    if kind == "timeout":
        timeout = eng.real("timeout", 0, tmax)
        appear = eng.real("appear", 0, 2000) if eng.bool("ever") else None
    elif kind == "absent":
        timeout = 0.0
        appear = eng.real("appear", 0, 2000) if eng.bool("ever") else None
    else:
        timeout = None
        appear = start + eng.real("appear", 0, tmax)
    w = Wrapped(eng, clock, {ref.id: appear})
    b = BlockingLimitedButler(w, {"other": 9.0} if kind == "absent" else {name: timeout, "other": 9.0})
    with patched(mod, time=clock):
        k, v = outcome(b.get, ref, parameters={"p": 1}, storageClass="S")
    last_t, last_sleeps, last = w.polls[-1]
    eng.check(w.args == ({"p": 1}, "S"), "arguments were changed")
    waits(eng, clock, w)
    if k == "ok":
        eng.check(last[ref.id] and v == ("value", ref.id), "returned without the dataset being there")
        eng.reach("found-at-once" if len(w.polls) == 1 else "found-later")
    else:
        eng.check(isinstance(v, FileNotFoundError), "wrong error", repr(v))
        eng.check(timeout is not None, "gave up although told to wait forever")
        if timeout is None:
            return
        eng.check(clock.now - start >= timeout, "gave up before the timeout")
        eng.check(len(clock.slept) == last_sleeps, "waited after the last look")
        eng.reach("gave-up")
    if timeout is not None:
        # no waiting starts once the time is over
        for at, _ in clock.slept:
            eng.check(at - start < timeout, "kept waiting after the timeout")


def waits(eng, clock, w):
    """The time between two looks is bounded."""
    eng.check(len(clock.slept) <= len(w.polls), "waits twice without looking")
    for at, s in clock.slept:
        eng.check(s <= 2.0, "waits too long between looks")


def many(eng, kinds, tmax, jitter):
    """stored_many(): several datasets with their own timeouts."""
    clock = Clock(eng, jitter)
    start = clock.now
    refs = [mkref(n, k) for k, (n, _) in enumerate(kinds)]
    timeouts, appear, limit = {}, {}, {}
    for r, (n, how) in zip(refs, kinds):
        n = n.split(".")[0]
        if how == "timeout":
            if n not in timeouts:
                timeouts[n] = eng.real(f"timeout_{n}", 0, tmax)
            limit[r.id] = timeouts[n]
            appear[r.id] = start + eng.real(f"appear{r.id.int}", 0, 20) if eng.bool(f"ever{r.id.int}") else None
        elif how == "forever":
            timeouts[n] = limit[r.id] = None
            appear[r.id] = start + eng.real(f"appear{r.id.int}", 0, tmax)
        else:
            limit[r.id] = 0.0
            appear[r.id] = start + eng.real(f"appear{r.id.int}", 0, 20) if eng.bool(f"ever{r.id.int}") else None
    w = Wrapped(eng, clock, appear)
    b = BlockingLimitedButler(w, timeouts)
    with patched(mod, time=clock):
        k, v = outcome(b.stored_many, list(refs))
    eng.check(k == "ok", "existence check failed", repr(v))
    eng.check(set(v) == set(refs), "answer lists other datasets")
    waits(eng, clock, w)
    asked_late = {r.id: False for r in refs}
    for r in refs:
        looks = [(t, n, p[r.id]) for t, n, p in w.polls if r.id in p]
        eng.check(v[r] == looks[-1][2], "answer differs from the last look", str(r))
        if not v[r]:
            lim = limit[r.id]
            eng.check(lim is not None, "gave up on a dataset it was told to wait forever for")
            if lim is None:
                return
            # the last look at it happened after the last wait that its own timeout covers
            for j, (at, _) in enumerate(clock.slept):
                eng.check(eng.implies(at - start < lim, looks[-1][1] > j), "did not look again after waiting")
            eng.check(clock.now - start >= lim, "gave up before the timeout")
            eng.reach("missing")
        else:
            eng.reach("found-later" if len(looks) > 1 else "found-at-once")
    finite = [x for x in limit.values() if x is not None]
    if len(finite) == len(limit):
        for at, _ in clock.slept:
            eng.check(eng.any_of(*[at - start < x for x in finite]), "kept waiting after every timeout")
    # never waits for something that is already there or has no timeout left
    for j, (at, _) in enumerate(clock.slept):
        pend = []
        for r in refs:
            seen = any(p.get(r.id) for t, n, p in w.polls if n <= j)
            if not seen:
                pend.append(True if limit[r.id] is None else at - start < limit[r.id])
        eng.check(eng.any_of(*pend) if pend else False, "waits although nothing is left to wait for")


def cases(tier):
    t = tier == "thorough"
    mx = 2.4 if t else 1.4
    cap = 3000 if t else 400
    fl = ("found-at-once", "found-later")
    out = [
        Case("get-timeout", one, dict(kind="timeout", tmax=mx, jitter=True), f"timeout 0..{mx} s", fl + ("gave-up",), time_cap=cap),
        Case("get-exact", one, dict(kind="timeout", tmax=mx, jitter=False), "clock stands still between sleeps", fl + ("gave-up",),
             time_cap=cap),
        Case("get-forever", one, dict(kind="forever", tmax=mx, jitter=True), "no timeout", fl, time_cap=cap),
        Case("get-none", one, dict(kind="absent", tmax=mx, jitter=True), "type without timeout", ("found-at-once", "gave-up"),
             time_cap=cap),
        Case("get-none-exact", one, dict(kind="absent", tmax=mx, jitter=False), "type without timeout", ("found-at-once", "gave-up"),
             time_cap=cap),
        Case("get-component", one, dict(kind="timeout", tmax=mx, jitter=False, comp=True), "component of a waited-for type",
             fl + ("gave-up",), time_cap=cap),
        Case("many-timeout", many, dict(kinds=(("t", "timeout"), ("u", "none")), tmax=mx, jitter=True), "one waited-for, one not",
             fl + ("missing",), time_cap=cap),
        Case("many-two", many, dict(kinds=(("t", "timeout"), ("u", "timeout")), tmax=0.9 if not t else 1.4, jitter=False),
             "two timeouts", fl + ("missing",), time_cap=cap),
        Case("many-same", many, dict(kinds=(("t", "timeout"), ("t", "timeout")), tmax=mx, jitter=False), "two datasets of one type",
             fl + ("missing",), time_cap=cap),
        Case("many-forever", many, dict(kinds=(("t", "forever"), ("u", "timeout")), tmax=0.9, jitter=False),
             "one to wait for forever", fl + ("missing",), time_cap=cap),
        Case("many-component", many, dict(kinds=(("c.x", "timeout"), ("u", "none")), tmax=0.9, jitter=False),
             "component of a waited-for type", fl + ("missing",), time_cap=cap),
        Case("many-none", many, dict(kinds=(("u", "none"), ("v", "none")), tmax=mx, jitter=False), "nothing to wait for",
             ("found-at-once", "missing"), time_cap=cap),
    ]
    return out
