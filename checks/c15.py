"""C15: communicators deliver every message once, in order, and report ends and errors."""
import json
import os
import shutil
import tempfile
import time

import numpy as np

from vlib import real
from vlib.core import Target, Violation, require

TECHNIQUE = "stateful property-based testing: generated histories of operations at both ends of real communicators (threads, processes, TCP, MPI) against first-in-first-out queues as a model"
RULE = (
    "1-3 remote ends, each a thread, a process, a TCP client or an MPI rank that carries out operations at its end of the "
    "communicator when told over a separate socket. Generated histories of sends (numbers, text, arrays of many types and "
    "structured ones, records as the manager sends them, up to 3 MB), receives without and with time limit, on empty "
    "and non-empty channels, receives begun before the message is sent, probes, pushed-back messages, and bursts in both directions at "
    "once, are compared operation by operation with a pair of queues; then every remote ends with a value or an error, and the "
    "driver reads on (pending messages first, then the end) and asks for the result, repeatedly. Non-trivial: at least four "
    "messages received, in both directions."
)
ASSUMPTIONS = [
    "senders do not change an object after sending it (thread communicators pass references)",
    "a message is expected to arrive within 20 s of being sent",
]
CAP_S = 200
SLOW = 20.0
KEEP = []


def shard_setup():
    import libensemble.libE  # noqa: F401
    import libensemble.comms.tcp_mgr  # noqa: F401


# ---- payloads -------------------------------------------------------------------------------------------------------
STRUCT = [("x", float, 2), ("sim_id", int), ("s", "U8"), ("b", bool), ("m", np.float32, (2, 2))]


def payload(kind, n, key):
    """A value determined by its arguments."""
    rng = np.random.RandomState((n * 1009 + key * 31) % 2**31)
    if kind == "none":
        return None
    if kind == "int":
        return n * 7919 - key
    if kind == "str":
        return f"{key}:" + "\u00e4b\u6d4b\n" * (n % 40)
    if kind == "bytes":
        return bytes(rng.randint(0, 256, n % 500).astype(np.uint8))
    if kind == "list":
        return [n, [key, (n, None)], {"a": {key}}, 1.5, float("inf")]
    if kind == "empty":
        return [np.zeros(0, dtype=STRUCT), [], {}, (), np.zeros((0, 3))][n % 5]
    if kind == "arr":
        dt = [float, int, bool, np.float32, "U5", "S3", complex, "M8[s]", ">i4"][n % 9]
        return rng.randint(0, 100, (n % 4 + 1, key % 3 + 1)).astype(dt)
    if kind == "struct":
        a = np.zeros(n % 6, dtype=STRUCT)
        a["x"] = rng.uniform(size=a["x"].shape)
        a["sim_id"] = np.arange(len(a)) + key
        a["s"] = f"k{key}"
        a["m"] = n
        return a
    if kind == "field":  # a non-contiguous view of a record array
        a = np.zeros(2 * (n % 6) + 2, dtype=STRUCT)
        a["sim_id"] = np.arange(len(a)) + key
        return a[["sim_id", "b"]][::2]
    if kind == "work":
        return {"H_fields": ["x"], "persis_info": {"rng": np.random.RandomState(n).get_state()[1][:3], "n": key}, "tag": 1,
                "libE_info": {"H_rows": np.arange(n % 5), "workerID": key, "persistent": bool(n % 2)}}
    if kind == "big":
        return rng.randint(0, 255, 30000 + 331 * (n % 9000)).astype(np.uint8)
    if kind == "object":
        a = np.empty(2, dtype=object)
        a[0], a[1] = {"n": n}, "t"
        return a
    raise AssertionError(kind)


KINDS = ["none", "int", "str", "bytes", "list", "empty", "arr", "struct", "field", "work", "big", "object"]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype.newbyteorder("=") != b.dtype.newbyteorder("=") or a.shape != b.shape:  # (pickling makes it native)
            return False
        if a.dtype.names:
            return all(same(a[f], b[f]) for f in a.dtype.names)
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool((a == b).all())
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


# ---- the two ends ---------------------------------------------------------------------------------------------------
def do(comm, op):
    """One operation at one end; returns what was seen."""
    from libensemble.comms.comms import CommFinishedException, Timeout

    k = op[0]
    try:
        if k == "send":
            comm.send(op[1], payload(*op[2]))
            return ("ok",)
        if k == "recv":
            return ("msg", comm.recv(timeout=op[1]) if op[1] is not None else comm.recv())
        if k == "flag":
            return ("flag", bool(comm.mail_flag()))
        if k == "wait":  # probe until a message is there, then take it without waiting
            end = time.monotonic() + SLOW
            while not comm.mail_flag():
                if time.monotonic() > end:
                    return ("never",)
                time.sleep(0.001)
            return ("msg", comm.recv(timeout=0))
        if k == "push":
            m = comm.recv()
            comm.push_to_buffer(*m)
            f = bool(comm.mail_flag())
            return ("push", f, comm.recv(timeout=0))
        if k == "burst":
            for i in range(op[1]):
                comm.send(op[2] + i, payload(*op[3][:2], op[3][2] + i))
            return ("ok",)
        if k == "later":
            time.sleep(op[1] / 1000.0)
            comm.send(op[2], payload(*op[3]))
            return ("ok",)
        if k == "n":
            return ("n", comm.get_num_workers())
    except Timeout:
        return ("timeout",)
    except CommFinishedException:
        return ("finished",)
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}")
    raise AssertionError(k)


class Planned(Exception):
    pass


def await_side(conn, limit, world=None):
    """Waits for word on the socket; MPI makes progress with large messages only while it is called."""
    end = time.monotonic() + limit
    while world is not None and not conn.poll(0.0005) and time.monotonic() < end:
        world.Iprobe(tag=32001)  # (one that finds a message makes no progress)
    return conn.poll(max(0, end - time.monotonic()))


def remote(comm, path, w, ends=True, world=None):
    """Runs at the remote end."""
    from multiprocessing.connection import Client

    end = time.monotonic() + SLOW
    while True:
        try:
            side = Client(path, family="AF_UNIX")
            break
        except (ConnectionRefusedError, FileNotFoundError):  # not listening yet
            if time.monotonic() > end:
                raise
            time.sleep(0.002)
    with side:
        side.send(w)
        while True:
            await_side(side, 1000, world)
            op = side.recv()
            if op[0] == "end":
                break
            side.send(do(comm, op))
    if not ends:
        return None
    if op[1] == "raise":
        raise (Planned, ValueError, KeyError)[op[3] % 3](TEXTS[op[2]])
    return payload(*op[2])


TEXTS = ["planned failure", "", "two\nlines \u6d4b", "50% {} %s", "x" * 5000]


def tcp_client(port, path, w):
    from libensemble.comms.tcp_mgr import ClientQCommManager

    with ClientQCommManager("localhost", port, b"verif", w) as comm:
        remote(comm, path, w, ends=False)


def drive(case, mode, world=None):
    """Runs the case; returns None or a description of the difference (text, signature)."""
    from multiprocessing.connection import Listener

    nw = case["nw"]
    tmp = tempfile.mkdtemp(prefix="v15_") if world is None else world[1]
    path = os.path.join(tmp, "s")
    lst = Listener(path, family="AF_UNIX", backlog=8)
    sides = {}
    extra = []
    try:
        if mode in ("threads", "local"):
            from libensemble.comms.comms import QCommProcess, QCommThread

            cls = QCommThread if mode == "threads" else QCommProcess
            comms = {w: cls(remote, nw, path, w) for w in range(nw)}
            for c in comms.values():
                c.run()
        elif mode == "tcp":
            from multiprocessing import Process

            from libensemble.comms.tcp_mgr import ServerQCommManager

            server = ServerQCommManager(0, b"verif")
            extra.append(server)
            procs = []
            comms = {}
            for w in range(nw):  # one after another: the manager knows them in the order they come
                p = Process(target=tcp_client, args=(server.address[1], path, w + 1))
                p.start()
                procs.append(p)
                if not case.get("together"):
                    comms[w] = server.await_workers(1)[0]
                    s = lst.accept()
                    sides[s.recv() - 1] = s
            if case.get("together"):
                cs = server.await_workers(nw)
                for w in range(nw):
                    s = lst.accept()
                    sides[s.recv() - 1] = s
                # find out which is which
                for w in range(nw):
                    sides[w].send(("send", 99, ("int", 0, w)))
                    sides[w].recv()
                for c in cs:
                    m = do(c, ("recv", SLOW))
                    who = {payload("int", 0, w): w for w in range(nw)}.get(m[1][1]) if m[0] == "msg" else None
                    if who is None or who in comms:
                        return f"the communicators of {nw} TCP workers are not those of the workers: {short(m)}", "tcp workers mixed up"
                    comms[who] = c
        else:
            from libensemble.comms.mpi import MainMPIComm

            comms = {w: MainMPIComm(world[0], w + 1) for w in range(nw)}
            KEEP.append(comms)  # (they wait for their messages to be delivered when they go)
        while len(sides) < nw:
            s = lst.accept()
            sides[s.recv() - (1 if mode in ("mpi", "tcp") else 0)] = s
        return Play(case, mode, comms, sides, world and world[0]).all()
    finally:
        lst.close()
        for s in sides.values():
            s.close()
        for e in extra:
            e.shutdown()
        if world is None:
            shutil.rmtree(tmp, ignore_errors=True)


class Bad(Exception):
    def __init__(self, msg, sig):
        self.msg, self.sig = msg, sig


class Play:
    def __init__(self, case, mode, comms, sides, world=None):
        self.world = world
        self.case, self.mode, self.comms, self.sides = case, mode, comms, sides
        self.q = {("d", w): [] for w in comms}  # messages on their way to the driver
        self.q.update({("r", w): [] for w in comms})  # ... to the remote
        self.count = 0
        self.got = {"d": 0, "r": 0}
        self.log = []
        self.labels = {}

    def bad(self, msg, sig):
        raise Bad(msg + "\noperations: " + " | ".join(self.log[-25:]), sig)

    def label(self, s):
        self.labels[s] = self.labels.get(s, 0) + 1

    def at(self, side, w, op):
        self.log.append(f"{side}{w}{op}")
        if side == "d":
            return do(self.comms[w], op)
        self.tell(w, op)
        return self.answer(w)

    def tell(self, w, op):
        self.sides[w].send(op)

    def answer(self, w):
        if not await_side(self.sides[w], 3 * SLOW, self.world):
            self.bad("the operation did not return", "an operation hangs")
        return self.sides[w].recv()

    @staticmethod
    def other(side):
        return "r" if side == "d" else "d"

    def expect(self, side, w, res, what):
        """res must be the first message of the queue."""
        q = self.q[side, w]
        tag, p = q[0]
        if res[0] != "msg":
            self.bad(f"{what}: a message was waiting, but {short(res)}", f"{what}: a waiting message is not received")
        want = (tag, payload(*p))
        m = res[1]
        if not (isinstance(m, (tuple, list)) and len(m) == 2 and m[0] == tag and same(m[1], want[1])):
            self.bad(f"{what}: received {short(m)}, sent {short(want)}", f"{what}: another message than the one sent")
        q.pop(0)
        self.got[side] += 1

    def ok(self, res, what):
        if res != ("ok",):
            self.bad(f"{what} {short(res)}", f"{what} fails")

    def new(self, kind, n):
        self.count += 1
        return 1 + self.count % 5, (kind, n, self.count)

    def all(self):
        try:
            for op in self.case["ops"]:
                self.one(op)
            self.finish()
        except Bad as b:
            return b.msg, b.sig
        return None

    def one(self, op):
        k, side, w = op[0], op[1], op[2] % len(self.comms)
        q = self.q[side, w]
        if k == "S":
            tag, p = self.new(op[3], op[4])
            self.ok(self.at(side, w, ("send", tag, p)), "send")
            self.q[self.other(side), w].append((tag, p))
        elif k == "R":
            if q:
                self.expect(side, w, self.at(side, w, ("recv", None)), "receive")
            else:
                self.empty(side, w, 0.01)
        elif k == "T":
            t = op[3] / 1000.0
            res = self.at(side, w, ("recv", t))
            if not q:
                self.judge_empty(res)
            elif res != ("timeout",):
                self.expect(side, w, res, "receive with time limit")
            else:
                self.label("timed out on its way")
        elif k == "W":
            if q:
                self.expect(side, w, self.at(side, w, ("wait",)), "receive after probe")
        elif k == "P":
            f = self.at(side, w, ("flag",))
            if f[0] != "flag" or (f[1] and not q):
                self.bad(f"probe of an empty channel gave {f}", "probe of an empty channel")
        elif k == "K":
            q = self.q["r", w]
            if q:
                res = self.at("r", w, ("push",))
                if res[0] != "push":
                    self.bad(f"push back: {short(res)}", "push back fails")
                if not res[1]:
                    self.bad("a probe does not see the message that was pushed back", "probe ignores a pushed-back message")
                self.expect("r", w, ("msg", res[2]), "receive of a pushed-back message")
                self.label("pushed back")
        elif k == "B":
            if sum(len(x) for x in self.q.values()) > 200:
                return
            n = op[3]
            base, p = 2, ("big" if op[4] % 2 else "struct", op[4], self.count + 1)
            self.log.append(f"burst{w} {n} {p}")
            self.tell(w, ("burst", n, base, p))
            self.ok(do(self.comms[w], ("burst", n, base, p)), "send")
            for i in range(n):
                for s in "dr":
                    self.q[s, w].append((base + i, (p[0], p[1], p[2] + i)))
            self.count += n
            self.expect("d", w, self.d_recv(w), "receive")
            self.ok(self.answer(w), "send")
            self.label("burst both ways")
        elif k == "L":
            # a receive that begins before the message is sent
            while q:
                self.expect(side, w, self.at(side, w, ("recv", SLOW)), "receive")
            tag, p = self.new(op[3], op[4])
            lim = SLOW if op[5] % 2 else None
            self.log.append(f"late to {side}{w}")
            if side == "d":
                self.tell(w, ("later", op[5], tag, p))
                q.append((tag, p))
                res = do(self.comms[w], ("recv", lim))
                self.ok(self.answer(w), "send")
            else:
                self.tell(w, ("recv", lim))
                self.ok(do(self.comms[w], ("later", op[5], tag, p)), "send")
                q.append((tag, p))
                res = self.answer(w)
            self.expect(side, w, res, "receive that waits")
            self.label("waited")
        else:
            raise AssertionError(op)

    def d_recv(self, w):
        self.log.append(f"d{w} recv")
        return do(self.comms[w], ("recv", SLOW))

    def empty(self, side, w, t):
        self.judge_empty(self.at(side, w, ("recv", t)))

    def judge_empty(self, res):
        if res != ("timeout",):
            self.bad(f"receive with time limit on an empty channel: {short(res)}", "receive with time limit on an empty channel")
        self.label("timed out")

    def finish(self):
        from libensemble.comms.comms import CommFinishedException, RemoteException, Timeout

        nw = len(self.comms)
        for w in self.comms:
            if self.mode != "tcp":
                n = self.at("r", w, ("n",))
                if n != ("n", nw):
                    self.bad(f"the number of workers is reported as {n} instead of {nw}", "number of workers")
            while self.q["r", w]:
                self.expect("r", w, self.at("r", w, ("recv", SLOW)), "receive")
            self.empty("r", w, 0.01)
        for w, c in self.comms.items():
            end = self.case["ends"][w % len(self.case["ends"])]
            how = end["read"]
            local = self.mode in ("threads", "local")
            if local:
                if not c.running:
                    self.bad("the remote function is reported as not running", "running")
                if how == "ask" and not self.q["d", w]:
                    try:
                        c.result(timeout=0.02)
                        self.bad("a result is given while the function is running", "result while running")
                    except Timeout:
                        self.label("result asked too early")
            if how == "before":
                while self.q["d", w]:
                    self.expect("d", w, self.d_recv(w), "receive")
                self.empty("d", w, 0.01)
            self.log.append(f"end{w} {end}")
            self.tell(w, ("end", "raise", end["n"] % len(TEXTS), end["n"]) if end["raise"] else ("end", "return", (end["kind"], end["n"], 5)))
            if not local:
                while self.q["d", w]:
                    self.expect("d", w, self.d_recv(w), "receive")
                self.empty("d", w, 0.01)
                continue
            if how in ("before", "after"):
                while self.q["d", w]:
                    self.expect("d", w, self.d_recv(w), "receive after the end")
                for t in (SLOW, 0.0, SLOW) if how == "after" else (SLOW,):
                    res = do(c, ("recv", t))
                    if res != ("finished",):
                        self.bad(f"reading after the end: {short(res)}", "reading after the end")
                self.label("read to the end")
            for again in range(2):
                try:
                    val = c.result(timeout=None if end["n"] % 2 else SLOW)
                    if end["raise"]:
                        self.bad(f"the error of the remote function is not reported, result() gives {short(val)}", "error is lost")
                    if not same(val, payload(end["kind"], end["n"], 5)):
                        self.bad(f"result is {short(val)}", "result differs")
                except RemoteException as e:
                    if not end["raise"]:
                        self.bad(f"unexpected RemoteException {e}", "unexpected error")
                    text = TEXTS[end["n"] % len(TEXTS)]
                    cls = (Planned, ValueError, KeyError)[end["n"] % 3]
                    if str(e) != str(cls(text)):
                        self.bad(f"the error says {short(str(e))} instead of {short(text)}", "error text differs")
                    if cls.__name__ not in e.exc or "remote" not in e.exc:
                        self.bad(f"the traceback is {short(e.exc)}", "traceback of the error")
                    self.label("error reported")
                except Timeout:
                    self.bad("result() times out although the function has ended", "result times out")
            if c.running:
                self.bad("the remote function is reported as running after its end", "running")
            res = do(c, ("recv", 0.0))
            if res != ("finished",):
                self.bad(f"reading after the end: {short(res)}", "reading after the end")
            try:
                c.recv(timeout=0.0)
            except CommFinishedException:
                pass


def mpi_func(case, world, cwd):
    """Called on all ranks; a result on rank 0."""
    comm = world.Dup()
    path = os.path.join(cwd, "s")
    if comm.Get_rank() == 0:
        bad = drive(case, "mpi", (comm, cwd))
        if bad is not None:  # the ranks may be stuck in one another: leave at once
            with open(os.path.join(cwd, "bad.json"), "w") as f:
                json.dump(bad, f)
            os._exit(3)
        KEEP.clear()
        return None
    if comm.Get_rank() > case["nw"]:
        return None
    from libensemble.comms.mpi import MainMPIComm

    c = MainMPIComm(comm)
    remote(c, path, comm.Get_rank(), ends=False, world=comm)
    del c


def run(case, rec):
    mode = case["mode"]
    tmp = tempfile.mkdtemp(prefix="v15_")
    try:
        try:
            if mode == "mpi":
                got = real.mpi_call("checks.c15:mpi_func", case, case["nw"] + 1, tmp, timeout=100)
            else:
                got, _, _ = real.in_child(lambda: drive(case, mode), 100, tmp)
        except real.TimedOut as e:
            if os.path.exists(os.path.join(tmp, "bad.json")):
                with open(os.path.join(tmp, "bad.json")) as f:
                    bad = json.load(f)
                raise Violation(f"{mode}: {bad[0]}", bad[1]) from None
            raise Violation(f"the operations did not come to an end ({mode})\n{e}", "hang") from None
        if got is not None:
            raise Violation(f"{mode}: {got[0]}", got[1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ops = case["ops"]
    rec.label(mode)
    for k in sorted({o[0] for o in ops}):
        rec.label("has " + k)
    to = {"d": 0, "r": 0}
    for o in ops:
        if o[0] in ("S",):
            to[Play.other(o[1])] += 1
        if o[0] == "B":
            to["d"] += o[3]
            to["r"] += o[3]
        if o[0] == "L":
            to[o[1]] += 1
    rec.nontrivial(min(to.values()) > 0 and sum(to.values()) >= 4, interest=len(ops))


def strategy(modes):
    from hypothesis import strategies as st

    side = st.sampled_from(["d", "r"])
    w = st.integers(0, 2)
    kind = st.sampled_from(KINDS)
    n = st.integers(0, 9999)
    send = st.tuples(st.just("S"), side, w, kind, n)
    op = st.one_of(
        send, send, send,
        st.tuples(st.just("R"), side, w),
        st.tuples(st.just("R"), side, w),
        st.tuples(st.just("T"), side, w, st.sampled_from([0, 1, 5, 20])),
        st.tuples(st.just("W"), side, w),
        st.tuples(st.just("P"), side, w),
        st.tuples(st.just("K"), st.just("r"), w),
        st.tuples(st.just("B"), side, w, st.integers(1, 12), st.integers(0, 20)),
        st.tuples(st.just("L"), side, w, kind, n, st.sampled_from([0, 1, 10, 11, 40, 41])),
    ).map(list)
    end = st.fixed_dictionaries({"raise": st.booleans(), "kind": kind, "n": n, "read": st.sampled_from(["before", "after", "ask", "none"])})
    return st.fixed_dictionaries(
        {
            "mode": st.sampled_from(modes),
            "nw": st.sampled_from([1, 2, 3] if "mpi" not in modes else [2]),
            "ops": st.lists(op, min_size=3, max_size=40),
            "ends": st.lists(end, min_size=1, max_size=3),
            "together": st.booleans(),
        }
    )


TARGETS = [
    Target("threads", lambda: strategy(["threads"]), run, 400, 20000),
    Target("local", lambda: strategy(["local"]), run, 300, 12000),
    Target("tcp", lambda: strategy(["tcp"]), run, 64, 2500),
    Target("mpi", lambda: strategy(["mpi"]), run, 80, 3000, max_shards=2),
]
