"""C21: subset expressions select exactly the tasks that their documentation says."""

from __future__ import annotations

from lsst.pipe.base.pipeline_graph import InvalidExpressionError, PipelineGraph

from symx.core import outcome
from symx.runner import Case

from . import _pg_env as p
from . import c22_graph_changes as c22

ASSUMPTIONS = [
    "tasks have connections from a fixed pool, switched on by their config; no dataset type has two producers",
    "ancestors and descendants are those by runtime (not init) datasets, apart from the documented consumers of an init-input",
]


class Bad(Exception):
    """The expression has no meaning."""


class Pipeline:
    """The pipeline, as the documentation of expressions sees it."""

    def __init__(self, tasks, subsets):
        self.tasks, self.subsets = tasks, subsets
        self.edges = {(t, k, d) for t, keep in tasks.items() for k, _, d in p.edges(t, keep)}
        self.types = {d for _, _, d in self.edges}
        self.flow = {(a, b) for a, k1, d in self.edges for b, k2, e in self.edges if d == e and k1 == "out" and k2 in ("in", "pre")}

    def before(self, tasks):
        out, todo = set(), set(tasks)
        while todo:
            todo = {a for a, b in self.flow if b in todo} - out
            out |= todo
        return out

    def after(self, tasks):
        out, todo = set(), set(tasks)
        while todo:
            todo = {b for a, b in self.flow if a in todo} - out
            out |= todo
        return out

    def producer(self, d):
        """The task that makes d; not for init-outputs."""
        if any(k == "initout" and e == d for _, k, e in self.edges):
            raise Bad(d)
        return {t for t, k, e in self.edges if k == "out" and e == d}

    def what(self, name):
        q, _, label = name.rpartition(":")
        kinds = [k for k, names in (("T", self.tasks), ("D", self.types), ("S", self.subsets)) if label in names and q in ("", k)]
        if len(kinds) != 1:
            raise Bad(name)
        return kinds[0], label

    def name(self, name):
        kind, label = self.what(name)
        return {"T": lambda: {label}, "S": lambda: set(self.subsets[label]), "D": lambda: self.producer(label)}[kind]()

    def search(self, op, name):
        kind, label = self.what(name)
        if kind == "S":
            raise Bad(name)
        if kind == "T":
            return (self.before if op[0] == "<" else self.after)({label}) | ({label} if op[1:] else set())
        if op[0] == "<":
            made = self.producer(label)
            return self.before(made) | (made if op[1:] else set())
        used = {t for t, k, e in self.edges if e == label and k in p.READS}
        return used | self.after(used) | (self.producer(label) if op[1:] else set())

    def evaluate(self, tokens):
        """Recursive descent over the documented grammar and precedence."""
        tokens = list(tokens)

        def union():
            out = both()
            while tokens and tokens[0] == "|":
                tokens.pop(0)
                out = out | both()
            return out

        def both():
            out = atom()
            while tokens and tokens[0] == "&":
                tokens.pop(0)
                out = out & atom()
            return out

        def atom():
            if not tokens:
                raise Bad("end")
            t = tokens.pop(0)
            if t == "~":
                return set(self.tasks) - atom()
            if t == "(":
                out = union()
                if not tokens or tokens.pop(0) != ")":
                    raise Bad(")")
                return out
            if t[0] in "<>":
                if not tokens or not tokens[0][0].isalnum():
                    raise Bad(t)
                return self.search(t, tokens.pop(0))
            if t in ")|&":
                raise Bad(t)
            return self.name(t)

        out = union()
        if tokens:
            raise Bad(tokens[0])
        return out


def build(tasks, subsets):
    g = p.make(tasks)
    for s, members in subsets.items():
        g.add_task_subset(s, members)
    return g, Pipeline(tasks, subsets)


def ask(eng, g, w, tokens, text):
    try:
        want = w.evaluate(tokens)
    except Bad:
        want = None
    kind, r = outcome(g.select_tasks, text)
    if want is None:
        eng.check(kind == "exc" and isinstance(r, InvalidExpressionError), "an expression without meaning was not refused as such", f"{text!r} {r!r}")
        eng.reach("refused")
    else:
        eng.check((kind, r) == ("ok", want), "an expression selects wrong tasks", f"{text!r} {r!r} instead of {want}")
        eng.reach("selected")
    return want


ROLES = ((), ("w0",), ("r0",), ("r0", "w1"), ("r1", "w2"), ("r1", "r0"), ("iw0", "w1"), ("ir0", "r2"), ("ir0",))
SUBSETS = {"s": ["t0", "t2"], "d1": ["t1"], "e": []}


def names(eng, n, roles, first):
    """Every name and every search, in any pipeline of n tasks."""
    tasks, written = {}, set()
    for k in range(n):
        # the last task has the name of a dataset type
        keep = eng.choice(f"role{k}", first if k == 0 else roles)
        new = {c for c in keep if "w" in c}
        eng.assume(not new & written)
        written |= new
        tasks[f"t{k}" if k < n - 1 else "d2"] = keep
    subsets = {"s": ["t0", "d2"], "d1": ["t1"], "e": []}
    kind, r = outcome(build, tasks, subsets)
    eng.assume(kind == "ok")  # otherwise there is a cycle
    g, w = r
    if eng.bool("resolved"):
        g.resolve(dimensions=p.UNIVERSE, dataset_types={})
    for name in ("t0", "t1", "d0", "d1", "d2", "s0", "s", "e", "nope", "t0_metadata", "t0_config", "T:t0", "T:d2", "D:d2", "D:d1", "S:d1", "S:s", "T:d0",
                 "D:s0", "S:t0", "D:t0", "T:s"):
        for op in ("", "<", "<=", ">", ">="):
            ask(eng, g, w, ([op] if op else []) + [name], f"{op}{name}")
    eng.reach("done")


FIXED = ({"t0": ("w0",), "t1": ("r0", "w1"), "t2": ("r1", "iw0"), "t3": ("ir0", "r0")}, SUBSETS)
TOKENS = ("t1", "d0", "S:s", "nope", "(", ")", "~", "|", "&", "<", ">=")


def strings(eng, first, length, tokens=TOKENS):
    """Every sequence of tokens, written with or without spaces."""
    g, w = build(*FIXED)
    n = eng.choice("length", range(1, length + 1))
    seq = [eng.choice(f"token{k}", first if k == 0 else tokens) for k in range(n)]
    space = eng.choice("space", ("", " ", "\t\n "))
    text = seq[0]
    for a, b in zip(seq, seq[1:]):
        text += (space or (" " if a[0].isalnum() and b[0].isalnum() else "")) + b
    ask(eng, g, w, seq, text)
    eng.reach("done")


def trees(eng, shape, atoms, ops):
    """Every expression of a shape, with or without parentheses."""
    g, w = build(*FIXED)

    def leaf(k):
        a = eng.choice(f"atom{k}", atoms)
        return (["~"] if eng.bool(f"not{k}") else []) + ([a[0]] if a[0] in ("<", "<=", ">", ">=") else []) + [a[-1]]

    x, y, z = leaf(0), leaf(1), leaf(2)
    o1, o2 = [eng.choice("op1", ops)], [eng.choice("op2", ops)]
    if shape == "flat":
        tokens = x + o1 + y + o2 + z
    elif shape == "left":
        tokens = ["("] + x + o1 + y + [")"] + o2 + z
    elif shape == "right":
        tokens = x + o1 + ["("] + y + o2 + z + [")"]
    else:
        tokens = x + o1 + ["~", "("] + y + o2 + z + [")"]
    want = ask(eng, g, w, tokens, " ".join(tokens))
    eng.check(want is not None, "an expression of this shape has no meaning")
    eng.reach("done")


def part(eng, roles, expressions):
    """The graph of the selected tasks."""
    tasks, written = {}, set()
    for k in range(3):
        keep = eng.choice(f"role{k}", roles)
        new = {c for c in keep if "w" in c}
        eng.assume(not new & written)
        written |= new
        tasks[f"t{k}"] = keep
    kind, r = outcome(build, tasks, {"s": ["t0", "t2"]})
    eng.assume(kind == "ok")
    g, w = r
    resolved = bool(eng.bool("resolved"))
    if resolved:
        g.resolve(dimensions=p.UNIVERSE, dataset_types={})
    elif eng.bool("sorted"):
        g.sort()
    before = c22.snapshot(g)
    tokens = eng.choice("expression", expressions)
    want = ask(eng, g, w, tokens, " ".join(tokens))
    eng.assume(want is not None)
    h = g.select(" ".join(tokens))
    eng.check(c22.snapshot(g) == before, "selecting changed the graph")
    m = c22.Model()
    m.tasks = {t: (tasks[t], 0) for t in want}
    # a resolved selection keeps the definitions, with all their edges, as documented
    if resolved:
        eng.check(set(h.tasks) == want and set(h.dataset_types) == m.types(), "wrong selection", str(list(h.tasks)))
        eng.check(all(h.dataset_types[d].dataset_type == g.dataset_types[d].dataset_type for d in h.dataset_types), "a definition was lost")
        eng.check(all(n.has_resolved_dimensions for n in h.tasks.values()), "resolved dimensions were lost")
        eng.check(h.universe == g.universe, "the universe was lost")
        eng.reach("resolved")
        h.resolve(dimensions=p.UNIVERSE, dataset_types={})
    eng.check(h.has_been_sorted == g.has_been_sorted, "a part of a sorted graph is not sorted, or conversely")
    c22.look(eng, h, m)
    eng.check(not h.task_subsets and c22.snapshot(g) == before, "subsets were selected")
    eng.reach("done")


def cases(tier):
    t = tier == "thorough"
    atoms = (("t1",), ("S:s",), ("<=", "t2"), (">", "d0")) if not t else (("t1",), ("S:s",), ("<=", "t2"), (">", "d0"), ("d1",), (">", "s0"))
    exprs = (["~", "t1"], ["t0"], ["<=", "t2"], [">", "d0"], ["s"], ["t0", "&", "t1"])
    return [
        *[Case(f"names-{i}", names, dict(n=3 if not t else 4, roles=ROLES, first=ROLES[i::3]), "3 (thorough 4) tasks, any name and search",
               ("done", "selected", "refused"), validate_every=100, time_cap=2500) for i in range(3)],
        *[Case(f"strings-{i}", strings, dict(first=TOKENS[i::3], length=5 if t else 3), "3 (thorough 5) tokens", ("done", "selected", "refused"),
               validate_every=500, time_cap=2500) for i in range(3)],
        *[Case(f"strings-{s}", strings, dict(first=f, length=6 if t else 5, tokens=s.split("_")), "5 (thorough 6) tokens", ("done",),
               validate_every=500, time_cap=2500) for s, f in (("t1_~_|_&", ("t1", "~")), ("d0_(_)_&_<", ("d0", "(", "<")))],
        *[Case(f"trees-{s}", trees, dict(shape=s, atoms=atoms, ops=("|", "&")), "3 operands", ("done", "selected"), validate_every=500, time_cap=2500)
          for s in ("flat", "left", "right", "not")],
        Case("part", part, dict(roles=ROLES if t else ROLES[1::2], expressions=exprs), "3 tasks", ("done", "resolved"), validate_every=300, time_cap=2500),
    ]
