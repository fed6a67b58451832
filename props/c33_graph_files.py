"""C33: pipeline graphs survive files: all that was known is read back, and changed tasks are noticed as asked."""

from __future__ import annotations

import io

from lsst.pipe.base.pipeline_graph import EdgesChangedError, PipelineGraph, TaskImportMode

from symx.core import outcome
from symx.runner import Case

from . import _pg_env as p
from . import c22_graph_changes as c22
from . import c23_dataset_types as c23

ASSUMPTIONS = [
    "tasks have connections from a fixed pool, switched on by their config; gzip and JSON are the real ones, on bytes in memory",
    "the class of a task changes by losing a connection",
]


def edge(e):
    return None if e is None else (type(e).__name__, str(e.task_key), e.task_key.node_type, str(e.dataset_type_key), e.connection_name, e.storage_class_name,
                                   e.is_calibration, frozenset(e.raw_dimensions), e.is_init, e.dataset_type_name, getattr(e, "component", None),
                                   getattr(e, "is_prerequisite", None), getattr(e, "defer_query_constraint", None))


def dataset_type(g, d):
    if not g.dataset_types.is_resolved(d):
        return None
    n = g.dataset_types[d]
    return (n.dataset_type, n.is_prerequisite, n.is_initial_query_constraint, edge(n.producing_edge), frozenset(map(edge, n.consuming_edges)),
            len(n.consuming_edges))


def describe(g):
    """All that a graph says."""
    tasks = {}
    for t, n in g.tasks.items():
        tasks[t] = (n.label, n.task_class_name, n.get_config_str(), frozenset(n.raw_dimensions), n.has_resolved_dimensions,
                    n.dimensions if n.has_resolved_dimensions else None,
                    {k: edge(e) for k, e in n.inputs.items()}, {k: edge(e) for k, e in n.outputs.items()},
                    {k: edge(e) for k, e in n.prerequisite_inputs.items()}, edge(n.metadata_output), edge(n.log_output),
                    {k: edge(e) for k, e in n.init.inputs.items()}, {k: edge(e) for k, e in n.init.outputs.items()}, edge(n.init.config_output))
    return dict(
        tasks=tasks, task_order=list(g.tasks) if g.has_been_sorted else None,
        types={d: dataset_type(g, d) for d in g.dataset_types}, type_order=list(g.dataset_types) if g.has_been_sorted else None,
        edges={edge(e) for init in (False, True) for e in g.iter_edges(init)}, sorted=g.has_been_sorted, resolved=g.is_fully_resolved,
        nodes=[(a, b) for a, b, _ in g.iter_nodes()] if g.has_been_sorted else {(a, b) for a, b, _ in g.iter_nodes()},
        subsets={s: (frozenset(v), v.description, v.is_step) for s, v in g.task_subsets.items()}, steps=list(g.steps), verified=g.steps.verified,
        step_of={t: outcome(g.get_task_step, t)[1] for t in g.tasks} if g.steps and g.steps.verified else None,
        description=g.description, universe=outcome(lambda: g.universe)[0] == "ok" and g.universe, data_id=dict(getattr(g, "_raw_data_id", {})))


def write(g):
    out = io.BytesIO()
    g._write_stream(out)
    return out.getvalue()


def read(data, mode=TaskImportMode.REQUIRE_CONSISTENT_EDGES):
    return PipelineGraph._read_stream(io.BytesIO(data), mode)


def same(eng, a, b, what):
    a, b = describe(a), describe(b)
    for k in a:
        eng.check(a[k] == b[k], f"{what}: {k} is not what was written", f"{a[k]} {b[k]}")


MODES = tuple(TaskImportMode)


def graph(eng, n, roles, first):
    g = PipelineGraph(universe=p.UNIVERSE, data_id={"instrument": "I"}) if eng.bool("data-id") else PipelineGraph()
    m = c22.Model()
    for k in range(n):
        c22.add(eng, g, m, f"t{k}", eng.choice(f"role{k}", first if k == 0 else roles))
    eng.assume(len(m.tasks) == n and not any(len(m.producers(d)) > 1 for d in m.types()))
    return g, m


def store(eng, n, roles, first):
    """Any graph, in any state."""
    g, m = graph(eng, n, roles, first)
    g.description = eng.choice("description", ("", "some 'text'\n"))
    state = eng.choice("state", ("plain", "sorted", "resolved", "changed", "steps"))
    if state == "sorted":
        g.sort()
    elif state in ("resolved", "changed", "steps"):
        if state == "steps":
            g.add_task_subset("s", list(m.tasks), "all of them")
            g.add_task_subset("e", [])
            g.steps.append("s", ["instrument"] if eng.bool("shard") else [])
            m.subsets = {"s": set(m.tasks), "e": set()}
            eng.assume(all(p.edges(t, k) for t, (k, _) in m.tasks.items()))
        outcome(g.resolve, dimensions=p.UNIVERSE, dataset_types={})
    if state == "changed":
        c22.add(eng, g, m, "t9", ("r0", "w2"))
    mode = eng.choice("mode", MODES)
    data = write(g)
    h = read(data, mode)
    same(eng, g, h, "reading")
    if mode is not TaskImportMode.DO_NOT_IMPORT:
        c22.look(eng, h, m, False)
    eng.check(all(x.is_imported == (mode is not TaskImportMode.DO_NOT_IMPORT) for x in h.tasks.values()), "tasks were imported or not, against the mode")
    same(eng, g, read(write(h), mode), "writing again")
    eng.reach(state)
    if mode is TaskImportMode.DO_NOT_IMPORT:
        h._import_and_configure()
        same(eng, g, h, "importing later")
        c22.look(eng, h, m, False)
    # it is a graph like any other
    if state != "steps":
        kind, r = outcome(h.resolve, dimensions=p.UNIVERSE, dataset_types={})
        g.resolve(dimensions=p.UNIVERSE, dataset_types={}) if kind == "ok" else None
        eng.check(kind == "ok" or any(len(m.producers(d)) > 1 for d in m.types()), "a graph that was read cannot be resolved", repr(r))
        if kind == "ok":
            c22.look(eng, h, m)
            same(eng, g, h, "resolving")


def definitions(eng, kinds, dims, scs):
    """Any definition of connections and dataset types."""
    uses = {}
    for k, (kind, component) in enumerate((("out", False), (eng.choice("kind", kinds), bool(eng.bool("component"))))):
        d = c23.Def(eng.choice(f"dims{k}", dims), "C23SX" if component else eng.choice(f"sc{k}", scs), bool(eng.bool(f"calib{k}")))
        uses[f"t{k}"] = c23.Use(kind, d, component, kind in ("in", "pre") and bool(eng.bool(f"defer{k}")))
    if eng.bool("consumer only"):
        del uses["t0"]
    g = c23.make(uses)
    known = c23.Def(uses["t1"].d.dims, "C23SA", uses["t1"].d.calib)
    kind, r = outcome(g.resolve, dimensions=p.UNIVERSE, dataset_types={"D": known.dataset_type()} if eng.bool("registered") else {})
    h = read(write(g))
    same(eng, g, h, "reading")
    eng.reach("resolved" if kind == "ok" else "unresolved")


def changed(eng, n, roles, first, dropped):
    """Task classes that have changed since the graph was written."""
    g, m = graph(eng, n, roles, first)
    resolved = bool(eng.bool("resolve"))
    if resolved:
        g.resolve(dimensions=p.UNIVERSE, dataset_types={})
    if eng.bool("subset"):
        g.add_task_subset("s", ["t0"])
        m.subsets["s"] = {"t0"}
    data = write(g)
    drop = {eng.choice("dropped", dropped)}
    mode = eng.choice("mode", MODES)
    hit = {t for t, (keep, _) in m.tasks.items() if drop & set(keep)}
    p.DROPPED |= drop
    try:
        kind, r = outcome(read, data, mode)
        if mode is TaskImportMode.REQUIRE_CONSISTENT_EDGES and hit:
            eng.check(kind == "exc" and isinstance(r, EdgesChangedError), "changed connections were not noticed", repr(r))
            eng.reach("noticed")
            return
        eng.check(kind == "ok", "reading failed", repr(r))
        if mode is TaskImportMode.OVERRIDE_EDGES and hit:
            # configs still ask for the connection, the class has it no more
            before = m.copy()
            model = c22.Model()
            model.tasks = {t: (keep, 0) for t, (keep, _) in m.tasks.items()}
            model.subsets = m.subsets
            model.edges = lambda: {(t, *e) for t, (keep, _) in model.tasks.items() for e in p.edges(t, set(keep) - drop)}
            c22.look(eng, r, model, False)
            touched = {d for t, _, _, d in before.edges() if t in hit}
            eng.check(all(r.dataset_types.is_resolved(d) == (resolved and d not in touched) for d in r.dataset_types), "wrong resolutions after a change")
            eng.reach("overridden")
        else:
            same(eng, g, r, "reading")
            eng.reach("kept")
    finally:
        p.DROPPED -= drop


VARIANTS = (dict(), dict(minimum=0), dict(deferGraphConstraint=True), dict(name="d9"), dict(name="d0.x"), dict(storageClass="C23SA"), dict(isCalibration=True),
            dict(dimensions={"instrument", "detector"}), dict(multiple=True), dict(dimensions={"instrument", "skymap"}))


def redefined(eng, names, variants):
    """Task classes whose connections are defined in another way than when the graph was written."""
    name = eng.choice("connection", names)
    before, after = (eng.choice(k, variants) for k in ("before", "after"))
    known = {"minimum": ("r0",), "deferGraphConstraint": ("r0",), "isCalibration": ("r0", "w0", "p0"), "dimensions": ("r0", "w0", "p0"), "multiple": ("r0", "w0", "p0")}
    eng.assume(all(name in known.get(k, (name,)) for v in (before, after) for k in v) and
               not (name in ("w0", "iw0") and any("." in v.get("name", "") for v in (before, after))))
    try:
        p.CHANGED = {name: before} if before else {}
        g = PipelineGraph()
        g.add_task("t0", p.DynTask, p.config((name,)))
        g.add_task("t1", p.DynTask, p.config(("r1", "w2")))
        data = write(g)
        p.CHANGED = {name: after} if after else {}
        h = PipelineGraph()
        h.add_task("t0", p.DynTask, p.config((name,)))
        h.add_task("t1", p.DynTask, p.config(("r1", "w2")))
        mode = eng.choice("mode", MODES)
        kind, r = outcome(read, data, mode)
        differ = {edge(e) for i in (False, True) for e in g.iter_edges(i)} != {edge(e) for i in (False, True) for e in h.iter_edges(i)}
        if differ and mode is TaskImportMode.REQUIRE_CONSISTENT_EDGES:
            eng.check(kind == "exc" and isinstance(r, EdgesChangedError), "changed connections were not noticed", f"{name} {before} {after} {r!r}")
            eng.reach("noticed")
            return
        eng.check(kind == "ok", "reading failed", repr(r))
        same(eng, h if mode is TaskImportMode.OVERRIDE_EDGES else g, r, "reading")
        eng.reach("overridden" if differ and mode is TaskImportMode.OVERRIDE_EDGES else "kept")
    finally:
        p.CHANGED = {}


def cases(tier):
    t = tier == "thorough"
    roles = c22.ROLES if t else (("w0",), ("r0", "w1"), ("iw0",), ("ir0", "r0", "p0"), ("m0",), ())
    return [
        *[Case(f"store-{i}", store, dict(n=3 if t else 2, roles=roles, first=roles[i::3]), "2 (thorough 3) tasks, any state",
               ("plain", "sorted", "resolved", "changed", "steps"), validate_every=200, time_cap=2500) for i in range(3)],
        Case("definitions", definitions, dict(kinds=("in", "pre"), dims=("d", "i", "h") if t else ("d", "i"), scs=("C23SA", "C23SB") if t else ("C23SA",)),
             "2 tasks, any definition", ("resolved", "unresolved"), validate_every=200, time_cap=2500),
        Case("redefined", redefined, dict(names=("r0", "w0", "p0", "ir0", "iw0") if t else ("r0", "p0", "ir0"), variants=VARIANTS), "any definition, then any other",
             ("noticed", "overridden", "kept"), validate_every=50, time_cap=2500),
        Case("changed", changed, dict(n=3 if t else 2, roles=roles[:4], first=roles[:4], dropped=("w0", "r0", "ir0", "p0") if t else ("w0", "ir0")),
             "2 (thorough 3) tasks, a lost connection", ("noticed", "overridden", "kept"), validate_every=200, time_cap=2500),
    ]
