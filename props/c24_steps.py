"""C24: pipeline steps: a verified division of a pipeline is one that can really be run step by step."""

from __future__ import annotations

import io

from lsst.pipe.base.pipeline_graph import InvalidStepsError, PipelineGraph, UnresolvedGraphError
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, DynamicTestPipelineTask, DynamicTestPipelineTaskConfig

from symx.core import outcome
from symx.runner import Case

from . import _pg_env as p

ASSUMPTIONS = [
    "tasks have connections from a fixed pool, switched on by their config; no dataset type has two producers",
    "sharding by both of two dimensions related by a join table, for something that has only one of them, is left open",
]


class Model:
    def __init__(self):
        self.tasks = {}  # label -> connections
        self.subsets = {}  # label -> members
        self.steps = []

    def flow(self, init=True):
        edges = [(t, *e) for t, keep in self.tasks.items() for e in p.edges(t, keep)]
        return {(a, b) for a, k1, _, d in edges for b, k2, _, e in edges if d == e and k1 not in p.READS and k2 in p.READS
                and (init or k1 not in p.INIT)}

    def step_of(self):
        """The step of each task, or None when the steps are no valid division."""
        out = {}
        for s in self.steps:
            for t in self.subsets.get(s, (None,)):
                if t is None or t in out:
                    return None
                out[t] = s
        if set(out) != set(self.tasks):
            return None
        if any(self.steps.index(out[a]) > self.steps.index(out[b]) for a, b in self.flow()):
            return None
        return out


def look(eng, g, m, must_verify=None):
    """What the graph says about its steps is what the model says."""
    eng.check(list(g.steps) == m.steps and len(g.steps) == len(m.steps), "wrong steps", str(list(g.steps)))
    for s, v in g.task_subsets.items():
        eng.check(v.is_step == (s in m.steps) == (s in g.steps), "a subset is wrongly a step or not", s)
    eng.check({k: set(v) for k, v in g.task_subsets.items()} == m.subsets, "wrong subsets")
    verified = g.steps.verified
    if must_verify is not None:
        eng.check(verified == must_verify, "wrong verification of steps")
    if not m.steps:
        eng.check(verified, "a graph without steps is not verified")
        for t in m.tasks:
            kind, r = outcome(g.get_task_step, t)
            eng.check(kind == "exc" and isinstance(r, InvalidStepsError), "a task has a step without steps", repr(r))
        return
    want = m.step_of()
    eng.check(want is not None or not verified, "steps that cannot be run count as verified", str(m.steps))
    for t in m.tasks:
        kind, r = outcome(g.get_task_step, t)
        if verified:
            eng.check((kind, r) == ("ok", want[t]), "wrong step of a task", f"{t} {r!r}")
        else:
            eng.check(kind == "exc" and isinstance(r, UnresolvedGraphError), "a step was given without verification", f"{t} {r!r}")
    if not verified:
        eng.check(not g.is_fully_resolved, "a graph with unverified steps counts as resolved")


def resolve(eng, g, m):
    kind, r = outcome(g.resolve, dimensions=p.UNIVERSE, dataset_types={})
    want = m.step_of() if m.steps else {}
    if want is None:
        eng.check(kind == "exc" and isinstance(r, InvalidStepsError), "steps that cannot be run were accepted", f"{m.steps} {r!r}")
        look(eng, g, m, False)
        eng.reach("invalid")
        return
    eng.check(kind == "ok", "steps that can be run were refused", f"{m.steps} {r!r}")
    look(eng, g, m, True)
    eng.check(g.is_fully_resolved and g.has_been_sorted, "a resolved graph is not complete")
    order = list(g.tasks)
    at = {t: i for i, t in enumerate(order)}
    eng.check(set(order) == set(m.tasks) and all(at[a] < at[b] for a, b in m.flow(False)), "tasks are not in order", str(order))
    if m.steps:
        indices = [m.steps.index(want[t]) for t in order]
        eng.check(indices == sorted(indices), "the order of the tasks is not that of the steps", str(order))
        eng.reach("valid")


def again(eng, g, m):
    """Copies and files keep all of it."""
    for h in (g.copy(), roundtrip(g)):
        look(eng, h, m, g.steps.verified)
        eng.check(h.steps == g.steps and list(h.tasks) == list(g.tasks), "a copy has other steps")
        if m.steps and g.steps.verified:
            eng.check(all(h.steps.get_dimensions(s) == g.steps.get_dimensions(s) for s in m.steps), "a copy has other sharding dimensions")


def roundtrip(g):
    out = io.BytesIO()
    g._write_stream(out)
    return PipelineGraph._read_stream(io.BytesIO(out.getvalue()))


ROLES = ((), ("w0",), ("r0",), ("r0", "w1"), ("r1",), ("iw0",), ("ir0",), ("ir0", "w2"), ("r2", "iw0"))
STEPS = ("a", "b")


def start(eng, n, roles, first=None):
    g, m = PipelineGraph(), Model()
    written = set()
    for k in range(n):
        keep = eng.choice(f"role{k}", first if first and k == 0 else roles)
        new = {c[1:] if c[0] == "w" else c for c in keep if "w" in c}
        eng.assume(not new & written)
        written |= new
        g.add_task(f"t{k}", p.DynTask, p.config(keep))
        m.tasks[f"t{k}"] = keep
    return g, m


def define(eng, g, m, lists, places, names=STEPS):
    for s in names:
        m.subsets[s] = set()
    for t in m.tasks:
        for s in eng.choice(f"in-{t}", places):
            m.subsets[s].add(t)
    for s in names:
        g.add_task_subset(s, m.subsets[s])
    steps = eng.choice("steps", lists)
    if eng.bool("append"):
        for s in steps:
            g.steps.append(s)
    else:
        g.steps = steps
    m.steps = list(dict.fromkeys(steps))


def divide(eng, n, roles, lists, places, first=None, names=STEPS):
    """Any division of any pipeline of n tasks."""
    g, m = start(eng, n, roles, first)
    define(eng, g, m, lists, places, names)
    early = eng.bool("early")
    if early:
        # the graph is sorted in some way already
        g.steps.clear()
        resolve_ok = outcome(g.resolve, dimensions=p.UNIVERSE, dataset_types={})[0]
        eng.check(resolve_ok == "ok", "a graph without steps was not resolved")
        g.steps = m.steps
    look(eng, g, m, not m.steps)
    resolve(eng, g, m)
    again(eng, g, m)


def change(eng, n, roles, ops):
    """Any change to any verified division."""
    g, m = start(eng, n, roles)
    define(eng, g, m, (["a", "b"],), (("a",), ("b",)))
    resolve(eng, g, m)
    eng.assume(g.steps.verified)
    if eng.bool("read"):
        g = roundtrip(g)
    op = eng.choice("op", ops)
    s = eng.choice("step", STEPS)
    if op == "add":
        keep = eng.choice("new", (("r0",), ("w2",), ()))
        eng.assume(not any("w2" in k for k in m.tasks.values()))
        g.add_task("t9", p.DynTask, p.config(keep))
        m.tasks["t9"] = keep
        look(eng, g, m)
        if eng.bool("member"):
            g.task_subsets[s].add("t9")
            m.subsets[s].add("t9")
    elif op == "remove":
        g.remove_tasks(["t0"], drop_from_subsets=True)
        del m.tasks["t0"]
        for v in m.subsets.values():
            v.discard("t0")
    elif op == "move":
        for x in STEPS:
            (g.task_subsets[x].add if x == s else g.task_subsets[x].discard)("t0")
            (m.subsets[x].add if x == s else m.subsets[x].discard)("t0")
            look(eng, g, m)
    elif op == "drop":
        g.task_subsets[s].discard("t0")
        m.subsets[s].discard("t0")
    elif op == "swap":
        g.steps = ["b", "a"]
        m.steps = ["b", "a"]
        eng.check(g.steps != PipelineGraph_steps(["a", "b"]), "steps in another order are equal")
    elif op == "demote":
        g.steps.remove(s)
        m.steps.remove(s)
    elif op == "delete":
        g.remove_task_subset(s)
        m.steps.remove(s)
        del m.subsets[s]
    elif op == "overwrite":
        g.add_task_subset(s, ["t0"])
        m.subsets[s] = {"t0"}
    elif op == "reconfigure":
        keep = eng.choice("new", (("r0",), ("r2",), ("ir0",), ()))
        kind, r = outcome(g.reconfigure_tasks, ("t0", p.config(keep)))
        eng.assume(kind == "ok")
        m.tasks["t0"] = keep
    elif op == "clear":
        g.steps.clear()
        m.steps = []
    look(eng, g, m)
    h = g.copy()
    resolve(eng, g, m)
    again(eng, g, m)
    look(eng, h, m)
    eng.reach(op)


def PipelineGraph_steps(labels):
    g = PipelineGraph()
    g.steps = labels
    return g.steps


POOL = ("visit", "exposure", "detector", "physical_filter", "day_obs", "tract")
LINKED = {"visit": "exposure", "exposure": "visit"}


def fits(sharding, thing):
    """Whether splitting by `sharding` leaves each `thing` in one part; None if that is left open."""
    missing = [d for d in sharding.required if d not in thing.names]
    for d in missing:
        if d not in LINKED or LINKED[d] not in thing.names:
            return False
        if LINKED[d] in sharding.names:
            return None
    return True


def shard(eng, pool, outputs, late):
    """Any sharding dimensions for any task dimensions."""
    sharding = [d for d in pool if eng.bool(f"shard-{d}")]
    dims = [d for d in pool if eng.bool(f"task-{d}")]
    out = eng.choice("output", outputs)
    out = dims if out is None else out
    c = DynamicTestPipelineTaskConfig()
    c.dimensions = dims
    c.outputs["o"] = DynamicConnectionConfig(dataset_type_name="o", dimensions=out)
    g = PipelineGraph()
    g.add_task("t", DynamicTestPipelineTask, c)
    g.add_task_subset("s", ["t"])
    if late:
        g.resolve(dimensions=p.UNIVERSE, dataset_types={})
    g.steps.append("s", sharding)
    want = [fits(p.UNIVERSE.conform(sharding), p.UNIVERSE.conform(x)) for x in (dims, out)]
    eng.assume(False in want or None not in want)
    kind, r = outcome(g.resolve, dimensions=p.UNIVERSE, dataset_types={})
    if False in want:
        eng.check(kind == "exc" and isinstance(r, InvalidStepsError), "sharding dimensions that split a quantum or its output were accepted",
                  f"{sharding} {dims} {out} {r!r}")
        eng.check(not g.steps.verified and not g.is_fully_resolved, "refused steps count as verified")
        eng.reach("refused")
        return
    eng.check(kind == "ok", "good sharding dimensions were refused", f"{sharding} {dims} {out} {r!r}")
    for h in (g, g.copy(), roundtrip(g)):
        eng.check(h.steps.verified and h.steps.get_dimensions("s") == p.UNIVERSE.conform(sharding) == h.task_subsets["s"].dimensions,
                  "wrong sharding dimensions")
    # reassigned steps keep what is known of them
    h = g.copy()
    h.add_task_subset("more", [])
    h.steps = ["more", "s"]
    eng.check(h.steps.get_dimensions("s") == p.UNIVERSE.conform(sharding) and not h.steps.get_dimensions("more"), "reassigning the steps changed sharding dimensions")
    i = g.copy()
    i.add_task_subset("more", [])
    i.steps = h.steps
    eng.check(list(i.steps) == ["more", "s"] and i.steps.get_dimensions("s") == p.UNIVERSE.conform(sharding), "steps of another graph were not taken over")
    i.steps.append("s", pool)
    i.steps.remove("more")
    eng.check(list(h.steps) == ["more", "s"] and h.steps.get_dimensions("s") == p.UNIVERSE.conform(sharding), "graphs share their steps")
    h = g.copy()
    h.task_subsets["s"].dimensions = pool
    h.steps.remove("s")
    eng.check(list(g.steps) == ["s"] and g.steps.verified and g.steps.get_dimensions("s") == p.UNIVERSE.conform(sharding), "changing a copy changed the original")
    g.task_subsets["s"].dimensions = pool
    eng.check(not g.steps.verified and g.steps.get_dimensions("s") == p.UNIVERSE.conform(pool), "changed sharding dimensions were not noticed")
    eng.reach("accepted")


def cases(tier):
    t = tier == "thorough"
    one = (("a",), ("b",))
    any_ = ((), ("a",), ("b",), ("a", "b"))
    orders = (["a", "b"], ["b", "a"])
    lists = (["a", "b"], ["b", "a"], ["a"], [], ["a", "b", "nope"], ["b"])
    ops = ("add", "remove", "move", "drop", "swap", "demote", "delete", "overwrite", "reconfigure", "clear")
    five = (("w0",), ("r0", "w1"), ("r1",), ("iw0",), ("ir0", "r0"))
    few = (("w0",), ("r0", "w1"), ("ir0",), ("iw0",))
    return [
        *[Case(f"divide-{i}", divide, dict(n=3, roles=ROLES if t else five, first=(ROLES if t else five)[i::3], lists=lists[:3] if t else orders, places=one),
               "3 tasks, 2 steps", ("valid", "invalid"), validate_every=300, time_cap=2000) for i in range(3)],
        Case("divide-any", divide, dict(n=2, roles=(("w0",), ("r0",), ("iw0",), ("ir0",)), lists=lists, places=any_), "2 tasks in any of 2 subsets",
             ("valid", "invalid"), validate_every=300, time_cap=2000),
        Case("divide-steps", divide, dict(n=3 if t else 2, roles=(("w0",), ("r0",), ("iw0",), ("ir0",), ("r0", "w1"))[: 5 if t else 4],
                                          lists=(["a", "b", "c"],), places=(("a",), ("b",), ("c",)), names=("a", "b", "c")),
             "2 (thorough 3) tasks, 3 steps", ("valid", "invalid"), validate_every=300, time_cap=2000),
        *[Case(f"change-{i}", change, dict(n=3 if t else 2, roles=few, ops=ops[i::3]), "2 (thorough 3) tasks, any change",
               ("valid", *ops[i::3]), validate_every=200, time_cap=2000) for i in range(3)],
        *[Case(f"shard{'-late' if late else ''}", shard, dict(pool=POOL if t else POOL[:5] if not late else (*POOL[:3], "tract"), outputs=(None, ["visit"], ["detector", "exposure"]) if late else (None,), late=late),
               "5 (thorough 6) dimensions", ("accepted", "refused"), validate_every=300, time_cap=2000) for late in (False, True)],
    ]
