"""C03: traversal of a dependency graph yields every node exactly when due."""

from __future__ import annotations

import networkx

from lsst.pipe.base.graph_walker import GraphWalker

from symx.core import outcome
from symx.runner import Case

ASSUMPTIONS = [
    "networkx is trusted and executed concretely",
    "a node is marked at most once, and blocked nodes are not marked (caller contract)",
]


def walk(eng, n, out_of_order, poll_choice, multigraph=False):
    g = networkx.MultiDiGraph() if multigraph else networkx.DiGraph()
    order = list(range(n))
    g.add_nodes_from(order)
    edges = [(i, j) for i in range(n) for j in range(i + 1, n) if eng.bool(f"e{i}{j}")]
    g.add_edges_from(edges)
    preds = {j: {i for i, k in edges if k == j} for j in range(n)}
    succ = {i: {j for k, j in edges if k == i} for i in range(n)}

    def descendants(x):
        out, todo = set(), [x]
        while todo:
            for s in succ[todo.pop()]:
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return out

    w = GraphWalker(g)
    finished, failed, blocked, yielded = set(), set(), set(), set()

    def poll():
        kind, r = outcome(next, w)
        left = set(range(n)) - finished - failed - blocked
        if kind == "exc":
            eng.check(isinstance(r, StopIteration), "iteration raised", repr(r))
            eng.check(not left, "iteration stopped with unresolved nodes", repr(left))
            eng.reach("stop")
            return False
        eng.check(bool(left), "iteration continues although every node is resolved")
        for x in r:
            eng.check(x not in yielded, "a node was yielded twice")
            eng.check(x not in finished and x not in failed, "a node that is already done was yielded")
            eng.check(x not in blocked, "a blocked node was yielded")
            eng.check(preds[x] <= finished, "a node was yielded before its predecessors finished")
        due = {x for x in left if preds[x] <= finished and x not in yielded}
        eng.check(set(r) == due, "a node that is due was not yielded", f"{set(r)} vs {due}")
        yielded.update(r)
        return True

    poll()
    for step in range(n):
        cand = [x for x in range(n) if x not in finished | failed | blocked
                and (out_of_order or x in yielded)]
        if not cand:
            break
        x = eng.choice(f"mark{step}", cand)
        if eng.bool(f"ok{step}"):
            kind, r = outcome(w.finish, x)
            eng.check(kind == "ok", "finish raised", repr(r))
            finished.add(x)
            eng.reach("finish")
        else:
            kind, r = outcome(w.fail, x)
            eng.check(kind == "ok", "fail raised", repr(r))
            d = descendants(x) - blocked - failed
            eng.check(len(r) == len(set(r)) and set(r) - finished == d - finished and set(r) <= d,
                      "fail reports the wrong blocked nodes", f"{r} vs {d}")
            failed.add(x)
            blocked |= d - finished
            if d:
                eng.reach("blocked")
        if not poll_choice or eng.bool(f"poll{step}"):
            if not poll():
                break
    if finished | failed | blocked == set(range(n)):
        kind, r = outcome(next, w)
        eng.check(kind == "exc" and isinstance(r, StopIteration), "iteration does not stop when all is resolved")
    else:
        if not out_of_order:
            # completing only yielded nodes always makes progress
            kind, r = outcome(next, w)
            pend = yielded - finished - failed - blocked
            eng.check(kind == "ok" and (pend or r), "the walk is stuck", f"{r}")


def cases(tier):
    r = ("stop", "finish", "blocked")
    out = [
        Case("n3-any-order", walk, dict(n=3, out_of_order=True, poll_choice=True),
             "all DAGs on 3 nodes, marks in any order before/after being yielded, poll or not between marks", r),
        Case("n4-yielded-order", walk, dict(n=4, out_of_order=False, poll_choice=False),
             "all DAGs on 4 nodes, nodes marked in any order after being yielded, poll after each mark", r),
        Case("n3-multi", walk, dict(n=3, out_of_order=False, poll_choice=True, multigraph=True),
             "multigraph variant, 3 nodes", r),
        Case("n4-any-order", walk, dict(n=4, out_of_order=True, poll_choice=False),
             "all DAGs on 4 nodes, marks in any order", r, time_cap=300),
        Case("n0", walk, dict(n=0, out_of_order=False, poll_choice=False), "empty graph", ("stop",)),
    ]
    if tier == "thorough":
        out += [
            Case("n4-any-order-poll", walk, dict(n=4, out_of_order=True, poll_choice=True), "4 nodes, any order, "
                 "poll or not", r, time_cap=3000, validate_every=500),
            Case("n5-yielded-order", walk, dict(n=5, out_of_order=False, poll_choice=False), "5 nodes", r,
                 time_cap=3000, validate_every=500),
        ]
    return out
