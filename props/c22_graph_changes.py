"""C22: changing a pipeline graph: always what the tasks say, acyclic, and unchanged by anything refused."""

from __future__ import annotations

import itertools

from lsst.pipe.base.pipeline_graph import (DuplicateOutputError, EdgesChangedError, PipelineDataCycleError, PipelineGraph,
                                           PipelineGraphExceptionSafetyError, NodeType)

from symx.core import outcome
from symx.runner import Case

from . import _pg_env as p

ASSUMPTIONS = [
    "tasks have connections from a fixed pool, switched on by their config; all have the same dimensions and storage classes",
    "a reconfiguration that would make the graph cyclic may leave it unusable, as long as it says so",
]


class Model:
    """What the graph should be."""

    def __init__(self):
        self.tasks = {}  # label -> (keep, other)
        self.subsets = {}

    def copy(self):
        m = Model()
        m.tasks, m.subsets = dict(self.tasks), {k: set(v) for k, v in self.subsets.items()}
        return m

    def edges(self):
        return {(label, *e) for label, (keep, _) in self.tasks.items() for e in p.edges(label, keep)}

    def depends(self):
        """(producer, consumer, ...) nodes: init nodes and task nodes."""
        out = {(("init", t), ("task", t)) for t in self.tasks}
        for t, kind, _, d in self.edges():
            node = "init" if kind in p.INIT else "task", t
            out.add(((("type", d), node) if kind in p.READS else (node, ("type", d))))
        return out

    def cyclic(self):
        nodes = {n for e in self.depends() for n in e}
        edges = self.depends()
        while True:
            free = {n for n in nodes if not any(b == n for a, b in edges)}
            if not free:
                return bool(nodes)
            nodes -= free
            edges = {(a, b) for a, b in edges if a not in free}

    def producers(self, d):
        return {t for t, kind, _, e in self.edges() if e == d and kind not in p.READS}

    def types(self):
        return {d for _, _, _, d in self.edges()}


NODE = {NodeType.TASK: "task", NodeType.TASK_INIT: "init", NodeType.DATASET_TYPE: "type"}


def edge_of(g, x):
    """An edge of the graph in the model's terms."""
    kind = ("pre" if x.is_prerequisite else "in") if x.nodes[0] == x.dataset_type_key else "out"
    if x.is_init:
        kind = "init" + kind
    return x.task_label, kind, x.connection_name, x.parent_dataset_type_name


def look(eng, g, m, full=True):
    """The graph is exactly what the model says."""
    eng.check(set(g.tasks) == set(m.tasks) and len(g.tasks) == len(m.tasks), "wrong tasks", f"{list(g.tasks)} {list(m.tasks)}")
    types = m.types()
    eng.check(set(g.dataset_types) == types and len(g.dataset_types) == len(types), "wrong dataset types",
              str(set(g.dataset_types) ^ types))
    edges = m.edges()
    got = [edge_of(g, x) for init in (False, True) for x in g.iter_edges(init)]
    got = {(t, k, rename_auto(c), d) for t, k, c, d in got}
    eng.check(got == edges, "wrong edges", str(got ^ edges))
    for t, (keep, other) in m.tasks.items():
        node = g.tasks[t]
        eng.check(node.label == t and set(node.config.keep) == set(keep) and node.config.other == other, "a task has the wrong config", t)
        mine = {e[1:] for e in edges if e[0] == t}
        eng.check({edge_of(g, x)[1:2] + (rename_auto(x.connection_name), x.parent_dataset_type_name) for x in
                   [*node.iter_all_inputs(), *node.iter_all_outputs(), *node.init.iter_all_inputs(), *node.init.iter_all_outputs()]}
                  == mine, "a task node has edges that the graph has not", t)
        for init in (False, True):
            eng.check(set(g.inputs_of(t, init=init)) == {d for k, _, d in mine if k in p.READS and (k in p.INIT) == init},
                      "wrong inputs of a task", t)
            eng.check(set(g.outputs_of(t, init=init)) == {d for k, _, d in mine if k not in p.READS and (k in p.INIT) == init},
                      "wrong outputs of a task", t)
    for d in types:
        who = m.producers(d)
        kind, r = outcome(g.producing_edge_of, d)
        if len(who) > 1:
            eng.check(kind == "exc" and isinstance(r, DuplicateOutputError), "two producers of a dataset type are not reported", repr(r))
        else:
            eng.check(kind == "ok" and ({r.task_label} if r else set()) == who, "wrong producer", d)
            node = g.producer_of(d)
            eng.check(({node.label} if node else set()) == who, "wrong producer", d)
        want = sorted(t for t, k, _, e in edges if e == d and k in p.READS)
        eng.check(sorted(n.label for n in g.consumers_of(d)) == want, "wrong consumers", d)
        if g.dataset_types.is_resolved(d):
            n = g.dataset_types[d]
            eng.check({x.task_label for x in n.consuming_edges} == set(want) and len(n.consuming_edges) == len(want) and
                      ({n.producing_edge.task_label} if n.producing_edge else set()) == who,
                      "a resolved dataset type has other producers or consumers than the graph", d)
    eng.check(sorted(n for n, _ in g.iter_overall_inputs()) == sorted(d for d in types if not m.producers(d)), "wrong overall inputs")
    eng.check({k: set(v) for k, v in g.task_subsets.items()} == m.subsets, "wrong subsets", str(dict(g.task_subsets)))
    nodes = [(NODE[a], b) for a, b, _ in g.iter_nodes()]
    dep = m.depends()
    eng.check(len(nodes) == len(set(nodes)) and set(nodes) == {x for e in dep for x in e}, "wrong nodes")
    if g.has_been_sorted:
        at = {n: i for i, n in enumerate(nodes)}
        eng.check(all(at[a] < at[b] for a, b in dep), "a sorted graph is not in order")
        eng.check([t for k, t in nodes if k == "task"] == list(g.tasks) and [t for k, t in nodes if k == "type"] == list(g.dataset_types),
                  "the views of a sorted graph are in another order")
    if not full:
        return
    xg = g.make_xgraph()
    eng.check({((NODE[a.node_type], a.name), (NODE[b.node_type], b.name)) for a, b in xg.edges()} == dep, "wrong networkx graph")
    for key, state in xg.nodes.items():
        if NODE[key.node_type] != "type" and g.tasks[key.name].is_imported:
            eng.check(state["config"].other == m.tasks[key.name][1] and state["task_class"] is p.DynTask, "an exported task has another config", key.name)
    for init in (False, True):
        bx = g.make_bipartite_xgraph(init)
        eng.check(sorted((NODE[a.node_type], a.name, NODE[b.node_type], b.name, rename_auto(k)) for a, b, k in bx.edges(keys=True)) ==
                  sorted((*(("type", d), ("init" if init else "task", t))[:: 1 if k in p.READS else -1][0],
                          *(("type", d), ("init" if init else "task", t))[:: 1 if k in p.READS else -1][1], c)
                         for t, k, c, d in edges if (k in p.INIT) == init), "wrong bipartite networkx graph")
        eng.check(all(s["is_init"] == init for _, _, s in bx.edges(data=True)), "exported edges say wrongly whether they are init edges")
        tx = g.make_task_xgraph(init)
        want = {(a, b) for (a, k1, _, d), (b, k2, _, e) in itertools.product(edges, edges)
                if d == e and k1 not in p.READS and k2 in p.READS and (k1 in p.INIT) == (k2 in p.INIT) == init}
        eng.check({(a.name, b.name) for a, b in tx.edges()} == want and {n.name for n in tx.nodes} == set(m.tasks),
                  "wrong task networkx graph", str(want))


def rename_auto(name):
    from lsst.pipe.base import automatic_connection_constants as acc
    return {acc.CONFIG_INIT_OUTPUT_CONNECTION_NAME: "_config", acc.METADATA_OUTPUT_CONNECTION_NAME: "_metadata",
            acc.LOG_OUTPUT_CONNECTION_NAME: "_log"}.get(name, name)


def snapshot(g):
    """All that a refused change must leave."""
    return ([(a, b, id(n)) for a, b, n in g.iter_nodes()], [x.key for i in (False, True) for x in g.iter_edges(i)], g.has_been_sorted,
            {k: set(v) for k, v in g.task_subsets.items()}, list(g.steps), g.is_fully_resolved, g.steps.verified)


ROLES = ((), ("w0",), ("r0",), ("r0", "w1"), ("r1", "w0"), ("r1",), ("w0", "w1"), ("iw0",), ("ir0", "r0"), ("ir0", "w0"), ("iw0", "r1"),
         ("p0", "r0"), ("m0",), ("r0", "w0"), ("ir0", "iw1"), ("ir1", "iw0"))


def refused(eng, g, before, r, what):
    eng.check(not isinstance(r, PipelineGraphExceptionSafetyError), f"{what} made the graph inconsistent", repr(r))
    eng.check(snapshot(g) == before, f"{what} was refused but changed the graph", repr(r))
    eng.reach("refused")


def add(eng, g, m, label, keep):
    before = snapshot(g)
    resolved = {d for d in g.dataset_types if g.dataset_types.is_resolved(d)}
    after = m.copy()
    after.tasks[label] = keep, 0
    kind, r = outcome(g.add_task, label, p.DynTask, p.config(keep))
    if label in m.tasks or label in m.subsets or after.cyclic():
        eng.check(kind == "exc", "a cycle or a label that is taken was accepted", f"{label} {keep}")
        if after.cyclic() and label not in m.tasks and label not in m.subsets:
            eng.check(isinstance(r, PipelineDataCycleError), "a cycle is not reported as such", repr(r))
        refused(eng, g, before, r, "adding a task")
        return
    eng.check(kind == "ok" and r.label == label, "adding a task failed", repr(r))
    m.tasks[label] = keep, 0
    mine = {d for _, _, d in p.edges(label, keep)}
    eng.check(not g.has_been_sorted and not g.is_fully_resolved, "a graph with a new task counts as sorted or resolved")
    for d in g.dataset_types:
        eng.check(g.dataset_types.is_resolved(d) == (d in resolved and d not in mine), "wrong resolutions after adding a task", d)


def remove(eng, g, m, labels, drop):
    before = snapshot(g)
    resolved = {d for d in g.dataset_types if g.dataset_types.is_resolved(d)}
    kind, r = outcome(g.remove_tasks, labels, drop_from_subsets=drop)
    used = {t: {s for s, v in m.subsets.items() if t in v} for t in labels}
    if not set(labels) <= set(m.tasks) or (not drop and any(used.values())):
        eng.check(kind == "exc", "removing a task that is missing or in use was accepted", str(labels))
        refused(eng, g, before, r, "removing tasks")
        return
    eng.check(kind == "ok", "removing tasks failed", repr(r))
    eng.check({n.label: s for n, s in r} == used, "wrong report of removed tasks", repr(r))
    mine = {d for t in labels for _, _, d in p.edges(t, m.tasks[t][0])}
    for t in set(labels):
        del m.tasks[t]
        for s in m.subsets.values():
            s.discard(t)
    for d in g.dataset_types:
        eng.check(g.dataset_types.is_resolved(d) == (d in resolved and d not in mine), "wrong resolutions after removing a task", d)


def reconfigure(eng, g, m, label, keep, other, mode):
    before = snapshot(g)
    kind, r = outcome(g.reconfigure_tasks, (label, p.config(keep, other)), check_edges_unchanged=mode == "check",
                      assume_edges_unchanged=mode == "assume")
    if label not in m.tasks:
        eng.check(kind == "exc", "a task that is not there was reconfigured")
        return refused(eng, g, before, r, "reconfiguring")
    same = set(keep) == set(m.tasks[label][0])
    if not same and mode == "check":
        eng.check(kind == "exc" and isinstance(r, EdgesChangedError), "changed edges were not noticed", repr(r))
        return refused(eng, g, before, r, "reconfiguring")
    after = m.copy()
    after.tasks[label] = keep, other
    if after.cyclic():
        eng.check(kind == "exc", "reconfiguring made a cycle")
        if isinstance(r, PipelineGraphExceptionSafetyError):
            eng.assume(False)  # it says that the graph cannot be used any more
        return refused(eng, g, before, r, "reconfiguring")
    eng.check(kind == "ok", "reconfiguring failed", repr(r))
    m.tasks[label] = keep, other
    if same:
        eng.check(g.has_been_sorted == before[2] and g.is_fully_resolved == before[5], "a config change that changes no edges unresolved the graph")
    eng.reach("reconfigured")


def subset(eng, g, m, name, labels):
    before = snapshot(g)
    kind, r = outcome(g.add_task_subset, name, labels)
    if not set(labels) <= set(m.tasks) or name in m.tasks:
        eng.check(kind == "exc", "a subset with tasks that are not in the graph, or named like a task, was accepted", f"{name} {labels}")
        return refused(eng, g, before, r, "adding a subset")
    eng.check(kind == "ok", "adding a subset failed", repr(r))
    m.subsets[name] = set(labels)


def resolve(eng, g, m):
    kind, r = outcome(g.resolve, dimensions=p.UNIVERSE, dataset_types={})
    if any(len(m.producers(d)) > 1 for d in m.types()):
        eng.check(kind == "exc" and isinstance(r, DuplicateOutputError), "two producers of a dataset type are not reported", repr(r))
        eng.check(not g.is_fully_resolved, "a graph with two producers counts as resolved")
        eng.reach("duplicate")
    else:
        eng.check(kind == "ok", "resolving failed", repr(r))
        eng.check(g.is_fully_resolved and g.has_been_sorted and g.universe is p.UNIVERSE and
                  all(n.has_resolved_dimensions for n in g.tasks.values()), "a resolved graph is not complete")
        eng.reach("resolved")


def build(eng, n, first=ROLES):
    """Any graph of n tasks, built one by one."""
    g, m = PipelineGraph(data_id={"instrument": "I"}), Model()
    for k in range(n):
        add(eng, g, m, f"t{k}", eng.choice(f"role{k}", first if k == 0 else ROLES))
    look(eng, g, m)
    resolve(eng, g, m)
    look(eng, g, m)
    if g.is_fully_resolved:
        # parts that can run independently
        parts = list(g.split_independent())
        eng.check(sorted(t for s in parts for t in s.tasks) == sorted(m.tasks), "independent parts do not make up the graph")
        where = {t: i for i, s in enumerate(parts) for t in s.tasks}
        links = {(a, b) for a, k1, _, d in m.edges() for b, k2, _, e in m.edges()
                 if d == e and k1 == "out" and k2 in p.READS}
        eng.check(all(where[a] == where[b] for a, b in links), "dependent tasks were split")
        for i, s in enumerate(parts):
            group = {next(iter(s.tasks))} if s.tasks else set()
            while more := {y for x in links for y in x if set(x) & group} - group:
                group |= more
            eng.check(group == set(s.tasks), "independent tasks were kept together")
            eng.check(s.has_been_sorted and all(s.dataset_types.is_resolved(d) for d in s.dataset_types), "a part of a graph is not resolved or sorted")
        for s in (*parts, g.copy(), g.select(" | ".join(m.tasks)) if m.tasks else g):
            eng.check(dict(s.data_id.required) == {"instrument": "I"}, "a part or a copy of a graph has another data ID")
        # between
        for a, b in itertools.product([None, *m.tasks], repeat=2):
            if len(m.tasks) < 2:
                break
            dep = m.depends()
            def reach(start, back):  # noqa: E306
                seen, todo = {start}, [start]
                while todo:
                    x = todo.pop()
                    for u, v in dep:
                        if back:
                            u, v = v, u
                        if u == x and v not in seen:
                            seen.add(v)
                            todo.append(v)
                return {t for k, t in seen if k == "task"}
            want = (reach(("task", a), False) if a else set(m.tasks)) & (reach(("task", b), True) if b else set(m.tasks))
            eng.check(set(g.tasks.between(a, b)) == want, "wrong tasks between two tasks", f"{a} {b}")


def change(eng, n, roles, steps, new_roles):
    """Any sequence of changes to any graph of n tasks."""
    g, m = PipelineGraph(), Model()
    for k in range(n):
        add(eng, g, m, f"t{k}", eng.choice(f"role{k}", roles))
    eng.assume(len(m.tasks) == n)
    if eng.bool("subset"):
        subset(eng, g, m, "s", ["t0", f"t{n - 1}"])
    if eng.bool("resolve"):
        resolve(eng, g, m)
    for k in range(steps):
        op = eng.choice(f"op{k}", ("add", "remove", "reconfigure", "subset", "resolve", "copy", "rmsubset", "sort"))
        if op == "add":
            add(eng, g, m, eng.choice(f"label{k}", ("t0", "t7", "s")), eng.choice(f"new{k}", new_roles))
        elif op == "remove":
            remove(eng, g, m, eng.choice(f"labels{k}", (["t0"], [f"t{n - 1}", "t0"], ["t0", "t0"], ["t0", "nope"])), bool(eng.bool(f"drop{k}")))
        elif op == "reconfigure":
            reconfigure(eng, g, m, eng.choice(f"label{k}", ("t0", "nope")), keep := eng.choice(f"new{k}", new_roles), 1,
                        eng.choice(f"mode{k}", ("", "check", "assume") if "t0" in m.tasks and set(keep) == set(m.tasks["t0"][0]) else ("", "check")))
        elif op == "subset":
            subset(eng, g, m, eng.choice(f"name{k}", ("s", "t0", "u")), eng.choice(f"members{k}", (["t0"], ["nope"], [f"t{n - 1}", "t0"], [])))
        elif op == "rmsubset":
            before = snapshot(g)
            kind, r = outcome(g.remove_task_subset, "s")
            eng.check((kind == "ok") == ("s" in m.subsets), "wrong outcome of removing a subset", repr(r))
            if m.subsets.pop("s", None) is None:
                refused(eng, g, before, r, "removing a subset")
        elif op == "resolve":
            resolve(eng, g, m)
        elif op == "sort":
            kind, r = outcome(g.sort)
            eng.check(kind == "ok" and g.has_been_sorted, "sorting failed", repr(r))
        else:
            # go on with a copy; the original must not notice
            old, old_m, before = g, m.copy(), snapshot(g)
            g = g.copy()
            eng.check(snapshot(g)[1:] == before[1:], "a copy differs")
            look(eng, g, m, False)
            if "t0" in m.tasks:
                remove(eng, g, m, ["t0"], True)
            add(eng, g, m, "t8", ("r0", "w2"))
            eng.check(snapshot(old) == before, "changing a copy changed the original")
            look(eng, old, old_m, False)
        look(eng, g, m, k == steps - 1)
    resolve(eng, g, m)
    look(eng, g, m)
    eng.reach("done")


def cases(tier):
    t = tier == "thorough"
    few = (("w0",), ("r0", "w1"), ("iw0",), ("ir0", "r0"))
    new = (("r1", "w0"), ("ir0", "r0"), ("iw0", "p0"), ("w0",), ("ir1", "r0"))[: 5 if t else 3]
    return [
        *[Case(f"build-{i}", build, dict(n=3, first=ROLES[i::4]), "3 tasks with any connections of a list",
               ("resolved", "refused", "duplicate"), validate_every=300, time_cap=1500) for i in range(4)],
        *[Case(f"change-{'-'.join(r)}", change, dict(n=3 if t else 2, roles=(r,) if not t else (r, few[0]), steps=2, new_roles=new),
               "2 (thorough 3) tasks, any 2 changes", ("done", "refused"), validate_every=500, time_cap=3000) for r in few],
        Case("change-1", change, dict(n=2, roles=few if not t else ROLES, steps=1, new_roles=ROLES if t else ROLES[::3]), "2 tasks, any change",
             ("done", "refused", "reconfigured"), validate_every=300, time_cap=3000),
    ]
