"""A cooperative scheduler: the code's own threads run one at a time, and every choice of who runs next
is an unknown of the check.  Threads, locks, events, queues, executors and sleeps in the modules under
test are replaced by stand-ins that hand control to the scheduler."""
from __future__ import annotations

import collections
import concurrent.futures as CF
import contextlib
import pathlib
import queue
import sys
import threading
import time

import numpy as np

_T, _SEM = threading.Thread, threading.Semaphore
WORLD = None


class Kill(BaseException):
    """Ends a stand-in thread when its world is left."""


class Hang(Exception):
    """Nothing that could let the waiting caller go on will ever happen."""


class Task:
    def __init__(self, name):
        self.name, self.sem, self.cond, self.sleeping, self.timed, self.done, self.thread = name, _SEM(0), None, False, False, False, None
        self.expired = False


class World:
    def __init__(self, S, switches=0, fail=False, faults=True, names=None, free=True):
        self.free = free      # who runs next at a blocking point is an unknown
        self.S, self.budget, self.count = S, switches, 0
        self.main = self.cur = Task("main")
        self.tasks, self.error, self.killed, self.polls = [self.main], None, False, 0
        self.fail = fail      # one file operation fails (which one is an unknown)
        self.failed, self.ops = None, 0
        self.trace = []

    # ------------------------------------------------------------ scheduling
    def choose(self, what, n):
        if n == 1:
            return 0
        self.count += 1
        return self.S.choice(f"{what}{self.count}", n)

    def ok(self, t):
        return not t.done and (t.cond is None or t.cond())

    def point(self, kind="step", cond=None, timed=False):
        """The running thread may be interrupted here; it goes on when cond holds (or its timeout expires)."""
        t = self.cur
        if self.killed:
            if t is not self.main:
                raise Kill
            return cond is None or cond()
        t.cond, t.timed, t.sleeping, t.expired = cond, timed, kind == "sleep", False
        if kind in ("file", "put", "got", "start"):
            self.polls = 0
        try:
            nxt = self.pick(t)
        except BaseException as x:  # noqa: BLE001 - handed to the main thread
            if t is self.main:
                raise
            self.error, nxt = x, self.main
        if nxt is not t:
            self.switch(nxt, t)
        t.sleeping = False
        got = t.cond is None or t.cond()
        t.cond = None
        return got

    def switch(self, nxt, t):
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.killed and t is not self.main:
            raise Kill
        if t is self.main and self.error is not None:
            e, self.error = self.error, None
            raise e

    def pick(self, t):
        ready = [x for x in self.tasks if x is not t and not x.sleeping and self.ok(x)]
        asleep = [x for x in self.tasks if x.sleeping and not x.done]
        if not t.done and not t.sleeping and self.ok(t):
            opts = [t] + (ready + asleep if self.budget else [])
            k = self.choose("switch", len(opts))
            self.budget -= 1 if k else 0
            return opts[k]
        if ready:
            opts = ready + (asleep if self.budget else [])
            k = self.choose("next", len(opts)) if self.free or self.budget else 0
            self.budget -= 1 if k >= len(ready) else 0
            return opts[k]
        if asleep:
            if self.main in asleep:
                self.polls += 1
                if self.polls > 300:
                    raise Hang("waiting never returns")
            # round robin over the sleepers
            i = self.tasks.index(t)
            nxt = min(asleep, key=lambda x: (self.tasks.index(x) - i - 1) % len(self.tasks))
            return nxt
        late = [x for x in self.tasks if x.timed and not x.done]
        if late:
            late[0].expired = True
            return late[0]
        raise Hang("every thread is blocked")

    # ------------------------------------------------------------ threads
    def spawn(self, name, fn):
        task = Task(name)
        self.tasks.append(task)

        def run():
            task.sem.acquire()
            try:
                if not self.killed:
                    with self.mode():
                        fn()
            except Kill:
                pass
            except BaseException as x:  # noqa: BLE001
                if not isinstance(x, Exception):
                    self.error = x
                else:
                    self.trace.append(x)
            task.done = True
            self.polls = 0
            if self.killed:
                return
            try:
                nxt = self.main if self.error is not None else self.pick(task)
            except BaseException as x:  # noqa: BLE001
                self.error, nxt = x, self.main
            self.cur = nxt
            nxt.sem.release()
        task.thread = _T(target=run, daemon=True)
        task.thread.start()
        return task

    def mode(self):
        if self.S.sym:
            from symx.mode import SymMode
            return SymMode(self.S.e)
        return contextlib.nullcontext()

    def close(self):
        self.killed = True
        for t in self.tasks[1:]:
            if not t.done:
                self.cur = t
                t.sem.release()
                t.thread.join(5)
        self.cur = self.main

    # ------------------------------------------------------------ file operations
    def fileop(self, what):
        self.ops += 1
        if self.fail and self.failed is None and self.choose("fail", 2):
            self.failed = what
            raise OSError(f"no space left on device ({what})")
        self.point("file")


def here():
    """The world, if the calling thread belongs to it."""
    w = WORLD
    if w is None or w.killed:
        return None
    th = threading.current_thread()
    return w if (w.cur is w.main and th is threading.main_thread()) or w.cur.thread is th else None


class Lock:
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        w = here()
        if w is None:
            self.held = True
            return True
        if not blocking and self.held:
            return False
        got = w.point("lock", lambda: not self.held, timed=timeout is not None and timeout > 0)
        if got:
            self.held = True
        return got

    def release(self):
        self.held = False

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        super().__init__()
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.current_thread()
        if self.owner is me and self.n:
            self.n += 1
            return True
        got = super().acquire(blocking, timeout)
        if got:
            self.owner, self.n = me, 1
        return got

    def release(self):
        self.n -= 1
        if self.n <= 0:
            self.owner, self.held = None, False


class Event:
    def __init__(self):
        self.flag = False

    def set(self): self.flag = True
    def clear(self): self.flag = False
    def is_set(self): return self.flag

    def wait(self, timeout=None):
        w = here()
        return w.point("wait", lambda: self.flag, timed=timeout is not None) if w else self.flag


class Condition:
    def __init__(self, lock=None):
        self.lock, self.waiting = lock or RLock(), []

    def acquire(self, *a): return self.lock.acquire(*a)
    def release(self): self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        tok = [False]
        self.waiting.append(tok)
        self.lock.release()
        w = here()
        got = w.point("wait", lambda: tok[0], timed=timeout is not None) if w else True
        self.lock.acquire()
        return got

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout) and timeout is not None:
                return pred()
        return True

    def notify(self, n=1):
        for t in self.waiting[:n]:
            t[0] = True
        del self.waiting[:n]

    def notify_all(self): self.notify(len(self.waiting))


class Thread:
    count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        Thread.count += 1
        self.target, self.args, self.kwargs, self.daemon, self.name = target, args, kwargs or {}, daemon, name or f"t{Thread.count}"
        self.task = None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        w = here()
        if w is not None:
            self.task = w.spawn(self.name, self.run)
            w.point("start")

    def is_alive(self):
        return self.task is not None and not self.task.done

    def join(self, timeout=None):
        w = here()
        if w is not None and self.task is not None:
            w.point("join", lambda: self.task.done, timed=timeout is not None)


class Queue:
    def __init__(self, maxsize=0):
        self.items, self.maxsize, self.unfinished = collections.deque(), maxsize, 0

    def _full(self): return 0 < self.maxsize <= len(self.items)
    def full(self): return self._full()
    def empty(self): return not self.items
    def qsize(self): return len(self.items)

    def put(self, item, block=True, timeout=None):
        w = here()
        if w is not None and block:
            if not w.point("put", lambda: not self._full(), timed=timeout is not None):
                raise queue.Full
        elif self._full():
            raise queue.Full
        self.items.append(item)
        self.unfinished += 1
        if w is not None:
            w.point("put")

    def put_nowait(self, item): self.put(item, block=False)

    def get(self, block=True, timeout=None):
        w = here()
        if w is not None and block:
            if not w.point("get", lambda: bool(self.items), timed=timeout is not None):
                raise queue.Empty
        if not self.items:
            raise queue.Empty
        if w is not None:
            w.polls = 0
        return self.items.popleft()

    def get_nowait(self): return self.get(block=False)

    def task_done(self): self.unfinished -= 1

    def join(self):
        w = here()
        if w is not None:
            w.point("join", lambda: self.unfinished <= 0)


class Future:
    def __init__(self, task=None):
        self.task, self.value, self.exc = task, None, None

    def done(self): return self.task is None or self.task.done

    def result(self, timeout=None):
        w = here()
        if w is not None and not self.done():
            if not w.point("result", self.done, timed=timeout is not None):
                raise CF.TimeoutError
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self, timeout=None):
        try:
            self.result(timeout)
        except Exception as x:  # noqa: BLE001
            return x
        return None


class Pool:
    def __init__(self, *a, **k):
        self.futures = []

    def submit(self, fn, *a, **k):
        f = Future()

        def run():
            try:
                w = here()
                if w is not None:
                    w.fileop("background call")
                f.value = fn(*a, **k)
            except Exception as x:  # noqa: BLE001
                f.exc = x
        w = here()
        if w is None:
            run()
            return f
        f.task = w.spawn("pool", run)
        self.futures.append(f)
        w.point("submit")
        return f

    def map(self, fn, *its):
        return [f.result() for f in [self.submit(fn, *x) for x in zip(*its)]]

    def shutdown(self, wait=True, **k):
        for f in self.futures if wait else ():
            if not f.done():
                f.exception()

    def __enter__(self): return self
    def __exit__(self, *a): self.shutdown()


def wait_futures(fs, timeout=None, return_when=None):
    for f in fs:
        f.exception()
    return set(fs), set()


def sleep(s):
    w = here()
    if w is not None:
        w.point("sleep")


class Shim:
    def __init__(self, real, **over):
        self.__dict__["_r"], self.__dict__["_o"] = real, over

    def __getattr__(self, k):
        return self._o[k] if k in self._o else getattr(self._r, k)


def memmap(*a, mode="r+", **k):
    out = np.memmap(*a, mode=mode, **k)
    w = here()
    if w is not None and mode in ("w+", "r+"):
        w.fileop("data file")
    return out


THREADING = dict(Thread=Thread, Lock=Lock, RLock=RLock, Event=Event, Condition=Condition)
QUEUE = dict(Queue=Queue, SimpleQueue=Queue)
OVER = [(threading, THREADING), (queue, QUEUE), (time, dict(sleep=sleep)), (CF, dict(ThreadPoolExecutor=Pool, wait=wait_futures)), (np, dict(memmap=memmap))]


@contextlib.contextmanager
def world(S, prefix="dattri.algorithm.block_projected_if", **kw):
    """Run the body as the main thread of a scheduled world."""
    global WORLD
    repl = {id(real): Shim(real, **over) for real, over in OVER}
    for real, over in OVER:
        for k, v in over.items():
            repl[id(getattr(real, k))] = v
    saved = []
    for name, mod in list(sys.modules.items()):
        if name.startswith(prefix):
            for k, v in list(vars(mod).items()):
                if id(v) in repl and not k.startswith("__"):
                    saved.append((mod, k, v))
                    setattr(mod, k, repl[id(v)])
    popen = pathlib.Path.open

    def pathopen(self, mode="r", *a, **k):
        f = popen(self, mode, *a, **k)
        w = here()
        if w is not None and ("w" in mode or "a" in mode):
            w.fileop("metadata file")
        return f
    pathlib.Path.open = pathopen
    WORLD = w = World(S, **kw)
    try:
        yield w
    finally:
        w.close()
        WORLD = None
        pathlib.Path.open = popen
        for mod, k, v in saved:
            setattr(mod, k, v)
