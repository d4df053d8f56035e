"""Runs of libE() with real workers: threads, forked or spawned processes, TCP clients, MPI ranks.

A case is built into specifications by a function `build(case) -> (sim_specs, gen_specs, exit_criteria, persis_info,
alloc_specs, libE_specs, H0)` named "module:function", so that every process can do it for itself. Every run happens in
a forked child (or a group of MPI ranks) in a directory of its own, which is killed as a group when it takes too long.
"""
import ctypes
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vlib import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MPI_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "OMPI_MCA_oob_tcp_if_include": "lo",
}


class TimedOut(Exception):
    pass


def load(ref):
    mod, fn = ref.split(":")
    return getattr(importlib.import_module(mod), fn)


def fresh_process_state():
    import logging

    logging.disable(logging.NOTSET)
    from libensemble.executors.executor import Executor
    from libensemble.resources.resources import Resources
    from libensemble.tools.alloc_support import AllocSupport

    Executor.executor = None
    Resources.resources = None
    AllocSupport.gen_counter = 0
    for name in [None, "libensemble"] + [n for n in logging.root.manager.loggerDict if n.startswith("libensemble")]:
        log = logging.getLogger(name)
        for h in log.handlers[:]:
            log.removeHandler(h)
    try:
        from libensemble.comms.logs import LogConfig

        LogConfig("libensemble")
    except Exception:
        pass


def call_libE(ref, case, mode, nw, rank=None):
    """Runs one case in this process; returns a picklable summary."""
    from libensemble.libE import libE

    fresh_process_state()
    sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, libE_specs, H0 = load(ref)(case)
    libE_specs = dict(libE_specs)
    libE_specs.setdefault("save_H_and_persis_on_abort", False)
    if mode in ("local", "threads"):
        libE_specs.update(comms=mode, nworkers=nw)
    elif mode == "mpi":
        libE_specs.update(comms="mpi")
        libE_specs.pop("nworkers", None)
    elif mode == "tcp":

        req = os.path.join(os.getcwd(), "tcp_case.json")
        with open(req, "w") as f:
            json.dump({"ref": ref, "case": case, "nw": nw}, f)
        cmd = [sys.executable, os.path.join(HERE, "vlib", "real_tcp.py"), req, "{manager_ip}", "{manager_port}", "{authkey}", "{workerID}"]
        libE_specs.update(comms="tcp", nworkers=nw, ip="localhost", port=0, worker_cmd=cmd)
    out = {"H": None, "persis_info": None, "flag": None, "exc": None}
    try:
        out["H"], out["persis_info"], out["flag"] = libE(sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, libE_specs, H0)
    except Exception as e:
        import traceback

        out["exc"] = (type(e).__name__, str(e), traceback.format_exc()[-3000:])
    return out


def in_child(fn, timeout, cwd):
    """fn() in a forked child that leads a session of its own, in directory cwd; its pickled result."""
    os.makedirs(cwd, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="verif_res_")
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.setsid()
            os.chdir(cwd)
            o = os.open(path + ".out", os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
            os.dup2(o, 1)
            os.dup2(o, 2)
            try:
                res = ("ok", fn())
            except BaseException:
                import traceback

                res = ("err", traceback.format_exc())
            with open(path, "wb") as f:
                pickle.dump(res, f)
            rc = 0
        finally:
            os._exit(rc)
    end = time.monotonic() + timeout
    done = False
    try:
        nap = 0.002
        while time.monotonic() < end:
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                done = True
                break
            time.sleep(nap)
            nap = min(nap * 1.5, 0.05)
    finally:
        left = kill_group(pid)
        if not done:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
    try:
        with open(path + ".out", errors="replace") as f:
            text = f.read()
    except OSError:
        text = ""
    try:
        if not done:
            raise TimedOut(text[-3000:])
        with open(path, "rb") as f:
            kind, res = pickle.load(f)
    finally:
        for p in (path, path + ".out"):
            if os.path.exists(p):
                os.unlink(p)
    if kind == "err":
        raise RuntimeError(res)
    return res, text, left


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
        return True
    except OSError:
        return False


def die_with_parent():
    """(Linux) This process is killed when its parent ends."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def kill_session(sid):
    """Every process of a session (each MPI rank has a process group of its own)."""
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if os.getsid(int(d)) == sid:
                    os.kill(int(d), signal.SIGKILL)
            except OSError:
                pass


class MPIServer:
    """N ranks that stay up and run one case after another."""

    def __init__(self, n):
        self.n = n
        self.p = None

    def start(self):
        self.k = 0
        env = dict(os.environ, **MPI_ENV)
        env["PYTHONPATH"] = os.pathsep.join([os.environ.get("VERIF_REPO", "/repo"), HERE])
        self.tmp = tempfile.mkdtemp(prefix="verif_mpi_")
        env["TMPDIR"] = self.tmp
        env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        self.err = open(os.path.join(self.tmp, "err"), "wb")
        self.p = subprocess.Popen(
            ["mpiexec", "-np", str(self.n), sys.executable, "-m", "vlib.real_mpi", self.tmp],
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.tmp, start_new_session=True,
            preexec_fn=die_with_parent,
        )
        if not self.wait_line(60, b"READY"):
            text = self.text()
            self.stop()
            raise RuntimeError("MPI does not start: " + text)

    def text(self):
        self.err.flush()
        with open(os.path.join(self.tmp, "err"), errors="replace") as f:
            return f.read()[-6000:]

    def wait_line(self, timeout, what):
        end = time.monotonic() + timeout
        buf = b""
        while True:
            left = end - time.monotonic()
            if left <= 0:
                return False
            r, _, _ = select.select([self.p.stdout], [], [], min(left, 1))
            if r:
                c = os.read(self.p.stdout.fileno(), 65536)
                if not c:
                    return False
                buf += c
                if what in buf:
                    return True

    def run(self, ref, case, cwd, timeout, func=False):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        self.k += 1
        req = os.path.join(self.tmp, f"req{self.k}.json")
        res = os.path.join(self.tmp, "res.pickle")
        if os.path.exists(res):
            os.unlink(res)
        with open(req + ".tmp", "w") as f:
            json.dump({"ref": ref, "case": case, "cwd": cwd, "res": res, "limit": timeout, "func": func}, f)
        os.rename(req + ".tmp", req)
        ok = self.wait_line(timeout, b"DONE")
        if not ok or not os.path.exists(res):
            dead = self.p.poll()
            time.sleep(0.2)
            text = self.text()
            self.stop()
            if ok or dead is not None or os.path.exists(res):
                pass
            raise TimedOut(text)
        with open(res, "rb") as f:
            return pickle.load(f)

    def stop(self):
        if self.p is not None:
            kill_session(self.p.pid)
            kill_group(self.p.pid)
            self.p.wait()
            self.p.stdout.close()
            self.err.close()
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.p = None


_servers = {}
core.CLEANUPS.append(lambda: [s.stop() for s in _servers.values()])


def run_mode(mode, ref, case, nw, cwd, timeout=60):
    """One run; the summary of call_libE plus 'text' (what was printed)."""
    os.makedirs(cwd, exist_ok=True)
    if mode == "mpi":
        s = _servers.setdefault(nw + 1, MPIServer(nw + 1))
        out = s.run(ref, case, cwd, timeout)
        out["text"] = ""
        return out
    res, text, left = in_child(lambda: call_libE(ref, case, mode, nw), timeout, cwd)
    res["text"] = text
    return res


def mpi_call(ref, case, n, cwd, timeout=60):
    """ref(case, communicator, cwd) on each of n ranks; what it gives on rank 0."""
    return _servers.setdefault(n, MPIServer(n)).run(ref, case, cwd, timeout, func=True)


def stop_servers():
    for s in _servers.values():
        s.stop()
    _servers.clear()
