"""Scripted ensembles: user functions that record everything they see and do, run by the real libE() on the Engine.

A `Run` executes one case and leaves a trace: an ordered list of Ev(t, kind, d). Kinds:
  alloc_in / alloc_out        snapshots around each allocation call
  call / ret / exc            user function called / returned / raised   (d: role 'sim'|'gen', w, serial, ...)
  ps_send / ps_recv           persistent exchange as the user function sees it
  msend                       manager put a message for worker w (tag, work record without comm)
  mget                        manager took a message from worker w (serial = which user output it carries)
  probe                       idle probe
"""
import copy
import os
import pickle
import threading
import types
import warnings

import numpy as np

from vlib import engine as E
from vlib.core import Violation

warnings.filterwarnings("ignore")

STOP_TAG, PERSIS_STOP = 3, 4
SIM, GEN = 1, 2


class Ev:
    __slots__ = ("t", "kind", "d")

    def __init__(self, t, kind, d):
        self.t, self.kind, self.d = t, kind, d

    def __repr__(self):
        return f"{self.t:.6f} {self.kind} {self.d}"


def quiet_logs():
    import logging

    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False


def reset_globals():
    from libensemble.executors.executor import Executor
    from libensemble.resources.resources import Resources
    from libensemble.tools.alloc_support import AllocSupport

    Executor.executor = None
    Resources.resources = None
    AllocSupport.gen_counter = 0
    try:
        from libensemble.comms.logs import LogConfig

        LogConfig.config.logger_set = False
    except Exception:
        pass


def copy_work(work):
    out = {}
    for k, v in work.items():
        if k == "libE_info":
            out[k] = {
                a: (np.array(b) if a == "H_rows" else copy.deepcopy(b))
                for a, b in v.items()
                if a not in ("comm", "executor")
            }
        elif k == "persis_info":
            out[k] = safe_copy(v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def safe_copy(x):
    try:
        return copy.deepcopy(x)
    except Exception:
        return repr(x)


class RecPS:
    """PersistentSupport with every exchange recorded."""

    def __init__(self, run, ps, w, serial0):
        self.run, self.ps, self.w = run, ps, w

    def send(self, out, status=None, **kw):
        if self.run.ps_hook is not None:
            out, bad = self.run.ps_hook(self, out)
        s = self.run.new_serial()
        self.run.log("ps_send", w=self.w, serial=s, out=np.array(out, copy=True) if out is not None else None,
                     rows=np.array(self.ps.libE_info["H_rows"]), status=status, role=self.role, **kw)
        self.run.pending.setdefault(self.w, []).append(s)
        if status is None:
            self.ps.send(out, **kw)
        else:
            self.ps.send(out, status, **kw)

    def recv(self, blocking=True):
        tag, work, calc_in = self.ps.recv(blocking=blocking)
        if tag is None:
            return tag, work, calc_in
        self.run.log(
            "ps_recv",
            w=self.w,
            role=self.role,
            tag=tag,
            work=copy_work(work) if isinstance(work, dict) else work,
            rows=np.array(work["libE_info"]["H_rows"]) if isinstance(work, dict) else None,
            calc_in=np.array(calc_in, copy=True) if calc_in is not None else None,
        )
        if self.run.recv_hook is not None and isinstance(calc_in, np.ndarray):
            calc_in = self.run.recv_hook(calc_in)
        return tag, work, calc_in

    def request_cancel_sim_ids(self, ids):
        s = self.run.new_serial()
        out = np.zeros(len(ids), dtype=[("sim_id", int), ("cancel_requested", bool)])
        out["sim_id"] = ids
        out["cancel_requested"] = True
        self.run.log("ps_send", w=self.w, serial=s, out=out, rows=None, status=None, role=self.role, keep_state=True)
        self.run.pending.setdefault(self.w, []).append(s)
        self.ps.request_cancel_sim_ids(ids)


class UserError(Exception):
    pass


class Run:
    def __init__(self, delays=(0,), clock_jump=1e7, probe_tick=1e-3):
        self.ev = []
        self.serials = 0
        self.pending = {}
        self.msg_serial = {}
        self.keep = []
        self.delays = delays
        self.eng = E.Engine(delays, on_event=self._on_event, jump=clock_jump, probe_tick=probe_tick)
        self.H = self.persis_info = self.flag = None
        self.exc = None
        self.hang = None
        self.leftover = []
        self.ncalls = {"sim": 0, "gen": 0}
        self.on_alloc = []  # callables(run, ev) run inside each allocation call
        self.gom = False
        self.recv_hook = None  # may change what a persistent function gets
        self.ps_hook = None  # may change what a persistent function sends

    # -- recording
    def log(self, kind, **d):
        e = Ev(self.eng.now(), kind, d)
        self.ev.append(e)
        if len(self.ev) > 30000 and not self.eng.hung:
            self.eng.hung = "the run goes on without end"
        return e

    def new_serial(self):
        self.serials += 1
        return self.serials

    def _on_event(self, t, kind, q, item=None, th=None):
        if kind == "probe":
            return
        if kind == "wput":
            if not q.mgr:
                return
            w = self.qwid(q)
            head = item[0] if isinstance(item, tuple) and len(item) else None
            if type(head).__name__ in ("CommResult", "CommResultErr"):
                self.ev.append(Ev(t, "wend", {"w": w, "err": type(head).__name__ == "CommResultErr"}))
                return
            pend = self.pending.get(w)
            s = pend.pop(0) if pend else None
            self.keep.append(item)
            self.msg_serial[id(item)] = s
            self.ev.append(Ev(t, "wput", {"w": w, "serial": s, **({"cwd": os.getcwd()} if self.eng.own_cwd else {})}))
        elif kind == "mget":
            w = self.qwid(q)
            self.ev.append(Ev(t, "mget", {"w": w, "serial": self.msg_serial.get(id(item))}))
        elif kind == "msend":
            w = self.qwid(q)
            tag, body = (item[0], item[1]) if isinstance(item, tuple) and len(item) == 2 else (None, item)
            if isinstance(body, dict) and "libE_info" in body:
                body = copy_work(body)
            elif isinstance(body, np.ndarray):
                body = np.array(body, copy=True)
            self.ev.append(Ev(t, "msend", {"w": w, "tag": tag, "body": body}))

    def qwid(self, q):
        """Worker id behind a queue between manager and worker: threads are started in order, the manager's own last."""
        if q.first not in self._tops:
            return None
        i = self._tops.index(q.first)
        return i + 1 if i < self.nw else 0

    # -- wrappers around user functions
    def wrap(self, role, fn):
        run = self

        def wrapped(H, persis_info, specs, libE_info):
            w = libE_info["workerID"]
            s = run.new_serial()
            k = run.ncalls[role]
            run.ncalls[role] += 1
            info = {a: safe_copy(b) for a, b in libE_info.items() if a not in ("comm", "executor")}
            run.log(
                "call", role=role, w=w, serial=s, k=k, rows=np.array(libE_info["H_rows"]), info=info,
                calc_in=np.array(H, copy=True), persis_info=safe_copy(persis_info), thread=threading.current_thread().name,
            )
            run.cur[w] = s
            try:
                out = fn(run, k, H, persis_info, specs, libE_info)
            except BaseException as e:
                if not isinstance(e, E.EngineAbort):
                    run.log("exc", role=role, w=w, serial=s, rows=np.array(libE_info["H_rows"]), exc=repr(e))
                    run.pending.setdefault(w, []).append(-s)
                raise
            run.log("ret", role=role, w=w, serial=s, k=k, rows=np.array(libE_info["H_rows"]), out=safe_copy(out))
            run.pending.setdefault(w, []).append(s)
            return out

        wrapped.__name__ = f"{role}_f"
        return wrapped

    def wrap_alloc(self, fn):
        run = self

        def alloc(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info):
            wsnap = {}
            ids = [int(i) for i in W["worker_id"]]
            for f in ("active", "persis_state", "active_recv", "gen_worker", "zero_resource_worker"):
                for i, v in zip(ids, W[f]):
                    wsnap.setdefault(i, {})[f] = v.item()
            e = run.log("alloc_in", W=wsnap, H=H.copy(), info=copy.deepcopy(libE_info), persis_info=safe_copy(persis_info))
            for f in run.on_alloc:
                f(run, e)
            try:
                out = fn(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info)
            except Exception as x:
                run.log("alloc_exc", exc=repr(x))
                raise
            work = {}
            if isinstance(out, tuple) and len(out) and isinstance(out[0], dict):
                work = {int(w): copy_work(v) if isinstance(v, dict) else v for w, v in out[0].items()}
            run.log("alloc_out", Work=work, flag=(out[2] if isinstance(out, tuple) and len(out) > 2 else 0))
            return out

        return alloc

    # -- running
    def go(self, nw, sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, libE_specs, H0=None, use_cls=None):
        from libensemble import libE as libE_func

        if not callable(libE_func):
            from libensemble.libE import libE as libE_func
        reset_globals()
        self.nw = nw
        self._tops = []
        self.cur = {}
        self.gom = bool(libE_specs.get("gen_on_manager"))
        specs = dict(comms="threads", nworkers=nw, disable_log_files=True, save_H_and_persis_on_abort=False)
        specs.update(libE_specs)
        eng = self.eng
        cwd = os.getcwd()
        with eng:
            # note the threads that the manager starts
            import libensemble  # noqa: F401

            real_start = threading.Thread.start
            run = self

            def start(th):
                if eng.is_manager():
                    run._tops.append(th)
                return real_start(th)

            threading.Thread.start = start
            try:
                self.H, self.persis_info, self.flag = libE_func(
                    sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, specs, H0
                )
            except E.EngineHang as e:
                self.hang = str(e)
            except E.EngineStall:
                self.hang = "a thread was busy for more than %d s" % E.STALL_S
            except Exception as e:
                self.exc = e
                self.exc_tb = e.__traceback__
            if self.hang is None:
                try:
                    self.leftover = [self._tops.index(t) + 1 if t in self._tops else t.name for t in eng.leftovers()]
                except E.EngineStall:
                    self.hang = "a thread was busy for more than %d s after the run" % E.STALL_S
            self.log("end")
        os.chdir(cwd)
        reset_globals()
        return self

    # -- queries
    def of(self, *kinds):
        return [e for e in self.ev if e.kind in kinds]

    def require_ended(self):
        if self.hang:
            raise Violation(f"the run hangs: {self.hang}\n" + self.tail(), "hang: " + self.hang)

    def tail(self, n=25):
        def short(e):
            d = {k: v for k, v in e.d.items() if k not in ("H", "persis_info", "W", "info")}
            return f"  {e.t - 1e9:.6f} {e.kind} {d}"[:300]

        return "\n".join(short(e) for e in self.ev[-n:])
