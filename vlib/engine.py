"""A deterministic, schedule-owning runtime for in-process libE() runs.

While an Engine is active, queue.Queue, threading.Thread.start/join, time.time/time_ns/sleep are replaced. All
communicator queues made in that period are SchedQueues. Only one thread makes progress at a time: the manager (the
thread that entered the engine) continues only when every other thread is parked (waiting on an empty queue, or polling
one) or finished. A message put by another thread becomes visible to the manager's probe only after the number of
probes the schedule says. So the run is a pure function of the code and the schedule; a run in which nothing can happen
any more is recognised as a hang.
"""
import collections
import os
import queue
import sys
import threading
import time

_real_queue = queue.Queue
_real_start = threading.Thread.start
_real_join = threading.Thread.join
_real_time = time.time
_real_time_ns = time.time_ns
_real_sleep = time.sleep

CURRENT = None
STALL_S = 120


class EngineAbort(SystemExit):
    """Ends a leftover thread."""


class EngineHang(BaseException):
    """The run can make no more progress."""


class EngineStall(BaseException):
    """A thread did not park within STALL_S real seconds."""


class SchedQueue(_real_queue):
    def __init__(self, maxsize=0):
        _real_queue.__init__(self, maxsize)
        self._eng = CURRENT
        if self._eng is not None:
            self._items = collections.deque()
            self.mgr = self._eng.is_manager()  # made by the manager, i.e. between manager and a worker
            self.first = None  # first other thread that uses it
            self.qid = len(self._eng.queues)
            self._eng.queues.append(self)

    def _on(self):
        return self._eng is not None and self._eng.active

    def put(self, item, block=True, timeout=None):
        if not self._on():
            return _real_queue.put(self, item, block, timeout)
        self._eng.q_put(self, item)

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get(self, block=True, timeout=None):
        if not self._on():
            return _real_queue.get(self, block, timeout)
        return self._eng.q_get(self, block, timeout)

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        if not self._on():
            return _real_queue.empty(self)
        return self._eng.q_empty(self)

    def qsize(self):
        if not self._on():
            return _real_queue.qsize(self)
        return 0 if self._eng.q_empty(self) else len(self._items)


class Engine:
    IDLE_LIMIT = 400

    def __init__(self, delays=(0,), on_event=None, clock0=1.0e9, tick=1e-6, probe_tick=1e-3, jump=1e7):
        self.delays = list(delays) or [0]
        self.nmsg = 0
        self.on_event = on_event
        self.clock = clock0
        self.tick, self.probe_tick, self.jump = tick, probe_tick, jump
        self.jumped = False
        self.cond = threading.Condition(threading.RLock())
        self.queues = []
        self.state = {}  # thread -> 'run' | 'done' | ('park', predicate, kind)
        self.order = []
        self.grant = {}
        self.rr = 0
        self.idle = 0
        self.active = False
        self.dead = False
        self.hung = None
        self.probes = 0
        self.own_cwd = None  # set to True to give every thread a current directory of its own, as processes have

    # -- time
    def now(self):
        self.clock += self.tick
        return self.clock

    def _sleep(self, s):
        if self.active and sys._getframe(1).f_globals.get("__name__") != "subprocess":
            self.clock += max(0.0, min(s, 0.01))
        else:
            _real_sleep(s)

    # -- activation
    def __enter__(self):
        global CURRENT
        assert CURRENT is None
        CURRENT = self
        self.manager = threading.get_ident()
        if self.own_cwd:
            self.own_cwd = os.getcwd()
        self.active = True
        queue.Queue = SchedQueue
        eng = self

        def start(th):
            if not eng.active or eng.dead:
                return _real_start(th)
            with eng.cond:
                eng.state[th] = "run"
                eng.order.append(th)
            run = th.run

            def wrapped():
                try:
                    run()
                finally:
                    with eng.cond:
                        eng.state[th] = "done"
                        eng.cond.notify_all()

            th.run = wrapped
            th.daemon = True
            r = _real_start(th)
            if eng.is_manager():
                eng.wait_quiet()
            return r

        def join(th, timeout=None):
            if not eng.active or th not in eng.state:
                return _real_join(th, timeout)
            eng.t_join(th, timeout)

        self.clock0 = self.clock
        self._hook = threading.excepthook
        threading.excepthook = lambda args: None
        threading.Thread.start = start
        threading.Thread.join = join
        time.time = self.now
        time.time_ns = lambda: int(self.now() * 1e9)
        time.sleep = self._sleep
        import libensemble.comms.comms as cc

        self._patched = []
        for mod in (cc,):
            for k, v in list(vars(mod).items()):
                if v is _real_queue:
                    setattr(mod, k, SchedQueue)
                    self._patched.append((mod, k, v))
                elif v is _real_time:
                    setattr(mod, k, self.now)
                    self._patched.append((mod, k, v))
        return self

    def __exit__(self, *exc):
        global CURRENT
        with self.cond:
            self.dead = True
            self.cond.notify_all()
        for _ in range(3):
            for th in self.order:
                if th.is_alive():
                    _real_join(th, 5)
        self.active = False
        queue.Queue = _real_queue
        threading.excepthook = self._hook
        threading.Thread.start = _real_start
        threading.Thread.join = _real_join
        time.time = _real_time
        time.time_ns = _real_time_ns
        time.sleep = _real_sleep
        for mod, k, v in self._patched:
            setattr(mod, k, v)
        CURRENT = None
        return False

    def leftovers(self):
        """Threads that are not finished once everything has settled."""
        self.wait_quiet()
        return [th for th in self.order if self.state[th] != "done"]

    # -- scheduling
    def is_manager(self):
        return threading.get_ident() == self.manager

    def _runnable(self, th):
        s = self.state[th]
        if s == "run":
            return True
        if s == "done":
            return False
        return s[1]()

    def wait_quiet(self):
        with self.cond:
            t0 = time.monotonic()
            while any(self._runnable(th) for th in self.order):
                self.cond.wait(timeout=5)
                if time.monotonic() - t0 > STALL_S:
                    raise EngineStall()
        if self.own_cwd and self.is_manager():
            os.chdir(self.own_cwd)

    def park(self, predicate, kind):
        th = threading.current_thread()
        cwd = os.getcwd() if self.own_cwd else None
        with self.cond:
            self.state[th] = ("park", lambda: self.dead or predicate(), kind)
            self.cond.notify_all()
            while not (self.dead or predicate()):
                self.cond.wait()
            self.state[th] = "run"
            if self.dead:
                raise EngineAbort(0)
            if cwd:
                os.chdir(cwd)

    def pollers(self):
        return [th for th in self.order if isinstance(self.state[th], tuple) and self.state[th][2] == "poll"]

    def grant_one(self):
        ps = self.pollers()
        if not ps:
            return False
        th = ps[self.rr % len(ps)]
        self.rr += 1
        with self.cond:
            self.grant[th] = True
            self.cond.notify_all()
        self.wait_quiet()
        return True

    def check_hang(self, what):
        if self.hung:
            raise EngineHang(self.hung)
        self.idle += 1
        if self.idle > self.IDLE_LIMIT:
            if not self.jumped:
                self.jumped = True
                self.clock += self.jump
                self.idle = 0
            else:
                self.hung = what
                raise EngineHang(what)

    def emit(self, *ev):
        if self.on_event is not None:
            self.on_event(self.clock, *ev)

    # -- queue operations
    def q_put(self, q, item):
        if self.is_manager():
            if self.hung:
                raise EngineHang(self.hung)
            self.wait_quiet()
            self.idle = 0
            with self.cond:
                self.emit("msend", q, item)
                q._items.append([item, 0])
                self.cond.notify_all()
            self.wait_quiet()
        else:
            if self.dead:
                raise EngineAbort(0)
            with self.cond:
                th = threading.current_thread()
                d = self.delays[self.nmsg % len(self.delays)]
                self.nmsg += 1
                q._items.append([item, d])
                q.first = q.first or th
                self.idle = 0
                self.emit("wput", q, item, th)
                self.cond.notify_all()

    def q_get(self, q, block, timeout):
        if self.is_manager():
            if self.hung:
                raise EngineHang(self.hung)
            self.wait_quiet()
            n = 0
            while not q._items:
                if not block or timeout is not None:
                    if n < 8 and self.grant_one():
                        n += 1
                        continue
                    raise queue.Empty
                self.grant_one()
                self.check_hang("the manager waits forever for a message")
            with self.cond:
                item = q._items.popleft()[0]
            self.idle = 0
            self.emit("mget", q, item)
            return item
        th = threading.current_thread()
        q.first = q.first or th
        if self.dead:
            raise EngineAbort(0)
        if not q._items:
            if not block or timeout is not None:
                self.grant[th] = False
                self.park(lambda: bool(q._items) or self.grant.get(th), "poll")
                if not q._items:
                    raise queue.Empty
            else:
                self.park(lambda: bool(q._items), "block")
        with self.cond:
            item = q._items.popleft()[0]
        self.emit("wget", q, item, th)
        return item

    def q_empty(self, q):
        if self.is_manager():
            if self.hung:
                raise EngineHang(self.hung)
            self.wait_quiet()
            self.probes += 1
            self.clock += self.probe_tick
            self.grant_one()
            if q._items:
                self.idle = 0
                if q._items[0][1] <= 0:
                    return False
                q._items[0][1] -= 1
                return True
            self.emit("probe", q)
            self.check_hang("nothing can happen any more, but the manager keeps waiting")
            return True
        th = threading.current_thread()
        q.first = q.first or th
        if self.dead:
            raise EngineAbort(0)
        if q._items:
            return False
        self.grant[th] = False
        self.park(lambda: bool(q._items) or self.grant.get(th), "poll")
        return not q._items

    def t_join(self, th, timeout):
        if self.is_manager():
            self.wait_quiet()
            n = 0
            while self.state[th] != "done":
                if timeout is not None and n > 50:
                    return
                n += 1
                granted = self.grant_one()
                if timeout is None:
                    if not granted and n > 50:
                        self.hung = self.hung or "a worker never returns from its loop: joining it blocks forever"
                    if self.hung or n > 1000:
                        self.hung = self.hung or "a worker never returns from its loop: joining it blocks forever"
                        raise EngineHang(self.hung)
            _real_join(th, 10)
        else:
            if timeout is None:
                self.park(lambda: self.state[th] == "done", "join")
            else:
                me = threading.current_thread()
                self.grant[me] = False
                self.park(lambda: self.state[th] == "done" or self.grant.get(me), "poll")
