"""Cooperative threads under a symbolic scheduler.

Real functions run in real threads, but only one at a time: a thread gives up
the processor at the operations of the stand-in queues, and which thread runs
next is a symbolic choice.  A thread runs until it has to wait, except that up
to `preemptions` times (at symbolic points) it is interrupted although it could
go on.  With `delays`, threads take turns in a fixed order and the choices that
deviate from it skip at most that many turns in all (delay-bounded scheduling);
without, every order is possible.
"""

from __future__ import annotations

import threading

from .core import EngineSignal


class ThreadExit(BaseException):
    """Unwinds a thread that is killed or no longer needed."""


class Deadlock(Exception):
    """No thread can go on."""


class Thr:
    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.cond = None  # None: can run
        self.done = False
        self.killed = False
        self.error = None
        self.thread = None
        self.ops = 0

    def ready(self):
        return not self.done and (self.killed or self.cond is None or bool(self.cond()))


class Sched:
    def __init__(self, eng, preemptions=0, delays=None):
        self.eng = eng
        self.delays = delays
        self.budget = preemptions
        self.main = Thr("main")
        self.threads = [self.main]
        self.cur = self.main
        self.stop = None  # exception that ends everything
        self.n = 0

    # -- operations of the running thread
    def spawn(self, name, fn, args):
        t = Thr(name)
        self.threads.append(t)

        def body():
            t.sem.acquire()
            try:
                if self.stop is None and not t.killed:
                    fn(*args)
            except ThreadExit:
                pass
            except BaseException as err:  # noqa: BLE001 - kept for the check
                t.error = err
            t.done = True
            if self.stop is None:
                try:
                    self._switch(leave=True)
                except ThreadExit:
                    pass

        t.thread = threading.Thread(target=body, daemon=True)
        t.thread.start()
        self.point()
        return t

    def _alive(self):
        if self.stop is not None or self.cur.killed:
            raise ThreadExit()

    def point(self):
        """The running thread may be interrupted here."""
        self._check_caller()
        self.cur.ops += 1
        if self.budget > 0:
            others = [t for t in self.threads if t is not self.cur and t.ready()]
            if others:
                t = self._choose([self.cur, *others], "preempt")
                if t is not self.cur:
                    self.budget -= 1
                    self._to(t)

    def wait(self, cond):
        """Go on only when cond() holds."""
        self._check_caller()
        if cond():
            return
        self.cur.cond = cond
        me = self.cur
        self._switch()
        me.cond = None

    def kill(self, t):
        t.killed = True

    # -- inside
    def _check_caller(self):
        if self.stop is not None or self.cur.killed:
            raise ThreadExit()
        if self.cur is self.main:
            return
        assert threading.current_thread() is self.cur.thread

    def _choose(self, options, what):
        if len(options) == 1:
            return options[0]
        self.n += 1
        try:
            return self.eng.choice(f"{what}{self.n}", options)
        except EngineSignal as sig:
            self._end(sig)
            raise ThreadExit() from None

    def _switch(self, leave=False):
        ready = [t for t in self.threads if t.ready()]
        if not ready:
            self._end(Deadlock(", ".join(t.name for t in self.threads if not t.done)))
            raise ThreadExit()
        if self.delays is not None:
            k = self.threads.index(self.cur) + 1
            order = [t for t in self.threads[k:] + self.threads[:k] if t in ready]
            ready = order[:self.delays + 1]
        t = self._choose(ready, "run")
        if self.delays is not None:
            self.delays -= ready.index(t)
        self._to(t, leave)

    def _to(self, t, leave=False):
        me, self.cur = self.cur, t
        if t is me:
            return
        t.sem.release()
        if not leave:
            me.sem.acquire()
            if self.stop is not None or me.killed:
                raise ThreadExit()

    def _end(self, exc):
        """Everything ends: the main thread raises exc."""
        if self.stop is None:
            self.stop = exc
        for t in self.threads:
            t.sem.release()

    def run(self, fn):
        """Run fn as the main thread; all others are gone when this returns."""
        try:
            result = fn()
        except ThreadExit:
            if self.stop is None:
                raise
            raise self.stop from None
        finally:
            self.left = [t.name for t in self.threads[1:] if not (t.done or t.killed)]
            self._end(ThreadExit())
            for t in self.threads[1:]:
                t.thread.join()
        if self.stop is not None and not isinstance(self.stop, ThreadExit):
            raise self.stop
        return result
