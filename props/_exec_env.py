"""Environment stand-ins shared by the graph-executor checks (C04, C05)."""

from __future__ import annotations

import types
import uuid

import networkx

from lsst.daf.butler import DataCoordinate, DimensionUniverse
from lsst.pipe.base.graph.graphSummary import QgraphSummary

from symx.core import EngineSignal, Stub

UNIVERSE = DimensionUniverse()
IDS = [uuid.UUID(int=(k + 1) * 0x1000193) for k in range(8)]
DATA_IDS = [DataCoordinate.standardize(instrument="I", detector=k, universe=UNIVERSE) for k in range(8)]
LABELS = [f"t{k}" for k in range(8)]


class TaskClass:
    canMultiprocess = True


class SerialOnly:
    canMultiprocess = False


class Node:
    """TaskNode stand-in (picklable)."""

    def __init__(self, label, task_class=TaskClass):
        self.label = label
        self.task_class = task_class


class Quantum:
    """butler Quantum stand-in (picklable)."""

    def __init__(self, dataId):
        self.dataId = dataId


class Graph(Stub):
    """PredictedQuantumGraph stand-in."""

    def __init__(self, n, edges, task_class=TaskClass, names=None):
        g = networkx.DiGraph()
        for k in range(n):
            label = LABELS[k] if names is None else names[k]
            node = Node(label, task_class)
            g.add_node(IDS[k], quantum=Quantum(DATA_IDS[k]), pipeline_node=node, task_label=label,
                       data_id=DATA_IDS[k])
        g.add_edges_from((IDS[i], IDS[j]) for i, j in edges)
        self.quantum_only_xgraph = networkx.freeze(g)
        self.quanta_by_task = {}
        for k in range(n):
            self.quanta_by_task.setdefault(LABELS[k] if names is None else names[k], {})[DATA_IDS[k]] = IDS[k]
        self.built = False

    def build_execution_quanta(self, *a, **k):
        self.built = True

    def _make_summary(self):
        return QgraphSummary()


class Fixup:
    """ExecutionGraphFixup stand-in that adds given edges."""

    def __init__(self, edges):
        self.edges = edges

    def fixup_graph(self, xgraph, quanta_by_task):
        xgraph.add_edges_from((IDS[i], IDS[j]) for i, j in self.edges)


def dag(eng, n, tag="e"):
    return [(i, j) for i in range(n) for j in range(i + 1, n) if eng.bool(f"{tag}{i}{j}")]


def has_cycle(n, edges):
    left = set(range(n))
    while True:
        free = {x for x in left if not any(b == x and a in left for a, b in edges)}
        if not free:
            return bool(left)
        left -= free


def descendants(x, edges):
    out, todo = set(), [x]
    while todo:
        y = todo.pop()
        for a, b in edges:
            if a == y and b not in out:
                out.add(b)
                todo.append(b)
    return out


class Conn(Stub):
    def __init__(self):
        self.items = []
        self.closed = False

    def send(self, obj):
        self.items.append(obj)

    def recv(self):
        if not self.items:
            raise EOFError
        return self.items.pop(0)

    def poll(self, timeout=0.0):
        return bool(self.items)

    def close(self):
        self.closed = True

    def fileno(self):
        return 0


class Clock(Stub):
    """time module stand-in: sleeping advances the clock."""

    def __init__(self, eng, on_sleep=None, limit=400):
        self.eng = eng
        self.now = 1000.0
        self.sleeps = 0
        self.limit = limit
        self.on_sleep = on_sleep

    def time(self):
        return self.now

    monotonic = perf_counter = time

    def sleep(self, dt):
        self.sleeps += 1
        self.eng.check(self.sleeps < self.limit, "the executor never terminates")
        # the scheduler polls every 0.1 s; short naps while stopping a process count the same way
        self.now = self.now + dt * 10
        if self.on_sleep is not None:
            self.on_sleep(dt)


class MP(Stub):
    """multiprocessing module stand-in."""

    def __init__(self, world):
        self.world = world

    def Pipe(self, duplex=True):
        c = Conn()
        return c, c

    def get_context(self, method=None):
        return self

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        return Process(self.world, target, args, kwargs or {}, name)


class Process(Stub):
    def __init__(self, world, target, args, kwargs, name):
        self.world, self.target, self.args, self.kwargs, self.name = world, target, args, kwargs, name
        self.pid = 1234
        self.code = None
        self.started = False
        self.closed = False
        self.signals = []

    def _check_open(self):
        if self.closed:
            raise ValueError("process object is closed")

    def start(self):
        self.started = True
        self.world.process_started(self)

    def is_alive(self):
        self._check_open()
        if self.code is None:
            self.world.poll(self)
        return self.code is None

    @property
    def exitcode(self):
        self._check_open()
        return self.code

    def join(self, timeout=None):
        self._check_open()
        if self.code is None and timeout is None:
            self.world.wait(self)

    def terminate(self):
        self._check_open()
        self.signals.append("term")
        if self.code is None:
            self.world.signalled(self, 15)

    def kill(self):
        self._check_open()
        self.signals.append("kill")
        if self.code is None:
            self.world.signalled(self, 9)

    def close(self):
        if self.code is None:
            raise ValueError("Cannot close a process while it is still running.")
        self.closed = True

    def run_child(self):
        """What multiprocessing's bootstrap does, in this process."""
        try:
            self.target(*self.args, **self.kwargs)
            self.code = 0
        except SystemExit as err:
            self.code = 0 if err.code is None else err.code if isinstance(err.code, int) else 1
        except EngineSignal:
            raise
        except BaseException:
            self.code = 1
