"""Reference model of the history: replays a Run's trace and says what every row must contain at every moment."""
import numpy as np

from vlib.core import Violation
from vlib.ens import GEN, PERSIS_STOP, SIM, STOP_TAG

LIBE_FIELDS = [
    "sim_id", "gen_worker", "gen_started_time", "gen_ended_time", "sim_worker", "sim_started", "sim_started_time",
    "sim_ended", "sim_ended_time", "gen_informed", "gen_informed_time", "cancel_requested", "kill_sent",
]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.all(a == b))


class Row:
    def __init__(self, i):
        self.i = i
        self.user = {}  # field -> value (numpy) ; missing: default
        self.gen_worker = 0
        self.gen_iv = None  # (lo, [hi]) of gen_ended_time
        self.gen_start_iv = None
        self.sim_worker = 0
        self.started = False
        self.started_iv = None
        self.ended = False
        self.ended_iv = None
        self.informed = False
        self.informed_iv = []
        self.sent_unended = False
        self.cancel = False
        self.kill_sent = False
        self.h0 = None


class Ref:
    """Aspects: 'data' (C01), 'life' (C02). Raises Violation as soon as an observed history differs."""

    def __init__(self, run, aspects, H0=None, dims=None, use_ret_gen=False, use_ret_sim=False, kill=False, cut=False):
        self.run, self.aspects = run, aspects
        self.cut, self.over = cut, False  # cut: the run was cut short, what comes after the stop signals is not recorded
        self.rows = []
        self.dims = dims or {}
        self.use_ret_gen, self.use_ret_sim = use_ret_gen, use_ret_sim
        self.open_iv = []
        self.gen_start = {}
        self.running = {}
        self.serial_out = {}
        self.stats = {"informed": 0, "gens": 0, "sims": 0, "updates": 0, "grown": 0, "unordered": 0, "partial": 0}
        self.killed_events = []
        self.offset = 0
        if H0 is not None and len(H0):
            self.offset = len(H0)
            for i in range(len(H0)):
                r = Row(i)
                for f in H0.dtype.names:
                    if f not in LIBE_FIELDS:
                        r.user[f] = np.array(H0[f][i], copy=True)
                names = H0.dtype.names
                if "sim_started" not in names:
                    r.started = r.ended = True
                else:
                    r.started = bool(H0["sim_started"][i])
                    r.ended = bool(H0["sim_ended"][i]) if "sim_ended" in names else r.started
                r.informed = bool(H0["gen_informed"][i]) if "gen_informed" in names else False
                r.cancel = bool(H0["cancel_requested"][i]) if "cancel_requested" in names else False
                r.kill_sent = bool(H0["kill_sent"][i]) if "kill_sent" in names else False
                r.h0 = {f: H0[f][i] for f in names if f in LIBE_FIELDS}
                self.rows.append(r)

    # -- replay
    def replay(self):
        for e in self.run.ev:
            getattr(self, "on_" + e.kind, lambda e: None)(e)
        return self

    def iv(self, lo):
        cell = [lo, None]
        self.open_iv.append(cell)
        return cell

    def close(self, t):
        for c in self.open_iv:
            if c[1] is None:
                c[1] = t
        self.open_iv = []

    def on_ret(self, e):
        self.serial_out[e.d["serial"]] = e

    def on_ps_send(self, e):
        self.serial_out[e.d["serial"]] = e

    def on_msend(self, e):
        w, tag, body = e.d["w"], e.d["tag"], e.d["body"]
        if tag in (SIM, GEN, PERSIS_STOP) and isinstance(body, dict) and "libE_info" in body:
            rows = body["libE_info"]["H_rows"]
            if tag == SIM:
                lo = self.last_alloc_out if hasattr(self, "last_alloc_out") else e.t
                for i in rows:
                    r = self.rows[i]
                    r.started = True
                    r.sim_worker = w
                    r.started_iv = self.iv(lo)
                self.running[w] = list(rows)
            else:
                lo = self.last_alloc_out if hasattr(self, "last_alloc_out") else e.t
                if tag == GEN:
                    self.gen_start[w] = self.iv(lo)
                for i in rows:
                    r = self.rows[i]
                    if r.ended:
                        r.informed = True
                        r.informed_iv.append(self.iv(lo))
                        self.stats["informed"] += 1
                    else:
                        r.sent_unended = True
        elif tag == STOP_TAG and body == 20 and self.cut:
            self.over = True
        elif tag == STOP_TAG and body == 21:
            self.killed_events.append((e.t, w))
            for i in self.running.get(w, []):
                if self.rows[i].cancel and not self.rows[i].ended:
                    self.rows[i].kill_sent = True

    def on_mget(self, e):
        s = e.d["serial"]
        if s is None or s < 0 or self.over:
            return
        src = self.serial_out.get(s)
        if src is None:
            return
        w = e.d["w"]
        role = src.d["role"]
        if src.kind == "ret":
            out = src.d["out"]
            status = None
            if isinstance(out, tuple):
                if len(out) >= 3:
                    status = out[2]
                elif len(out) == 2 and isinstance(out[1], (int, str)):
                    status = out[1]
                out = out[0]
            final = status in (11, 12) and not isinstance(status, str)
            if final:
                if role == "gen":
                    if self.use_ret_gen and isinstance(out, np.ndarray):
                        self.gen_out(w, out, e)
                elif self.use_ret_sim and isinstance(out, np.ndarray):
                    self.sim_out(w, src.d["rows"], out, e)
                return
        else:
            out = src.d["out"]
        if role == "gen":
            self.gen_out(w, out, e)
        else:
            self.sim_out(w, src.d["rows"], out, e)

    def gen_out(self, w, D, e):
        if D is None or len(D) == 0:
            return
        self.stats["gens"] += 1
        n0 = len(self.rows)
        iv = self.iv(e.t)
        if "sim_id" in D.dtype.names:
            ids = [int(i) for i in D["sim_id"]]
        else:
            ids = list(range(n0, n0 + len(D)))
        new = sorted(i for i in ids if i >= n0)
        for i in range(n0, n0 + len(new)):
            r = Row(i)
            r.gen_worker = w
            r.gen_iv = iv
            r.gen_start_iv = self.gen_start.get(w)
            self.rows.append(r)
        for j, i in enumerate(ids):
            if i >= len(self.rows):
                continue
            r = self.rows[i]
            if i < n0:
                self.stats["updates"] += 1
                if r.h0 is not None and float(r.h0.get("gen_ended_time", 0)) == 0 and r.gen_worker == 0 and r.gen_iv is None:
                    r.gen_any = True  # an H0 row without a recorded generation time, now updated by a generator
            for f in D.dtype.names:
                if f == "sim_id":
                    continue
                if f == "cancel_requested":
                    r.cancel = bool(D[f][j])
                else:
                    r.user[f] = np.array(D[f][j], copy=True)

    def sim_out(self, w, rows, out, e):
        self.stats["sims"] += 1
        if self.running.get(w) is not None and list(rows) == list(self.running.get(w)):
            self.running[w] = []
        rows = [int(i) for i in rows]
        if any(self.rows[i].started and not self.rows[i].ended for i in range(min(rows, default=0))):
            self.stats["unordered"] += 1
        iv = self.iv(e.t)
        for j, i in enumerate(rows):
            r = self.rows[i]
            r.ended = True
            r.ended_iv = iv
            if out is None:
                continue
            for f in out.dtype.names:
                v = np.array(out[f][j], copy=True)
                if v.ndim and f in self.dims and v.shape[0] < self.dims[f]:
                    self.stats["partial"] += 1
                    full = np.array(r.user.get(f, np.zeros(self.dims[f], v.dtype)), copy=True)
                    full[: v.shape[0]] = v
                    v = full
                r.user[f] = v

    def on_alloc_in(self, e):
        self.close(e.t)
        self.compare(e.d["H"], f"history seen by the allocation function at t={e.t - 1e9:.6f}")
        if "life" in self.aspects:
            H, info = e.d["H"], e.d["info"]
            for key, field in (
                ("sim_started_count", "sim_started"),
                ("sim_ended_count", "sim_ended"),
                ("gen_informed_count", "gen_informed"),
            ):
                want = int(np.sum(H[field]))
                if int(info[key]) != want:
                    raise Violation(
                        f"libE_info[{key!r}] given to the allocation function is {int(info[key])} but {want} rows are "
                        f"marked {field}\n" + self.run.tail(),
                        f"count {key} wrong",
                    )

    def on_alloc_out(self, e):
        self.last_alloc_out = e.t

    def on_end(self, e):
        self.close(e.t)

    # -- comparison
    def compare(self, H, where):
        tail = self.run.tail
        if len(H) != len(self.rows):
            raise Violation(
                f"{where}: {len(H)} rows, but {len(self.rows)} points were generated\n{tail()}", "number of rows"
            )
        n = len(H)
        if "data" in self.aspects:
            if not np.array_equal(H["sim_id"], [int(r.h0["sim_id"]) if r.h0 and "sim_id" in r.h0 else r.i for r in self.rows]):
                raise Violation(f"{where}: sim_ids are {H['sim_id']}\n{tail()}", "sim_ids")
            for f in H.dtype.names:
                if f in LIBE_FIELDS:
                    continue
                col = H[f]
                for r in self.rows:
                    got = col[r.i]
                    want = r.user.get(f)
                    if want is None:
                        want = self.default(f, H.dtype[f], r)
                    if not same(got, want):
                        raise Violation(
                            f"{where}: row {r.i} field {f!r} is {got!r}, but {want!r} was recorded for it\n{tail()}",
                            f"value of field {f}" if f in ("x", "f") else "value of a field",
                        )
            for r in self.rows:
                for f in r.user:
                    if f not in H.dtype.names:
                        raise Violation(f"{where}: field {f!r} is missing\n{tail()}", "missing field")
                if bool(H["cancel_requested"][r.i]) != r.cancel:
                    raise Violation(
                        f"{where}: row {r.i} cancel_requested={H['cancel_requested'][r.i]}, expected {r.cancel}\n{tail()}",
                        "cancel_requested",
                    )
        if "life" in self.aspects:
            for r in self.rows:
                self.life(H[r.i], r, where)
        if "kill" in self.aspects:
            for r in self.rows:
                if bool(H["kill_sent"][r.i]) != r.kill_sent or bool(H["cancel_requested"][r.i]) != r.cancel:
                    raise Violation(
                        f"{where}: row {r.i} cancel_requested={H['cancel_requested'][r.i]} kill_sent="
                        f"{H['kill_sent'][r.i]}, expected {r.cancel} and {r.kill_sent}\n{tail()}",
                        "kill_sent / cancel_requested",
                    )

    def default(self, f, dt, r):
        if f == "resource_sets" and r.h0 is None:
            return 1
        if f == "_id" and r.h0 is None:
            return -1
        return np.zeros((), dtype=dt.base) if dt.shape == () else np.zeros(dt.shape, dtype=dt.base)

    def life(self, h, r, where):
        def bad(what, got, want):
            raise Violation(f"{where}: row {r.i}: {what} is {got!r}, expected {want!r}\n{self.run.tail()}", what)

        def inside(what, t, ivs):
            if any(iv[0] <= t <= (iv[1] if iv[1] is not None else float("inf")) for iv in ivs):
                return
            bad(what, float(t) - 1e9, [[(x - 1e9 if x is not None else None) for x in iv] for iv in ivs])

        for what, want in (("sim_started", r.started), ("sim_ended", r.ended), ("gen_informed", r.informed)):
            if bool(h[what]) != want:
                bad(what, bool(h[what]), want)
        if r.h0 is None:
            if int(h["gen_worker"]) != r.gen_worker:
                bad("gen_worker", int(h["gen_worker"]), r.gen_worker)
            if r.gen_iv is not None:
                inside("gen_ended_time", h["gen_ended_time"], [r.gen_iv])
            if r.gen_start_iv is not None:
                inside("gen_started_time", h["gen_started_time"], [r.gen_start_iv])
        if r.h0 is None or r.started_iv is not None:
            if int(h["sim_worker"]) != r.sim_worker:
                bad("sim_worker", int(h["sim_worker"]), r.sim_worker)
            if r.started_iv is not None:
                inside("sim_started_time", h["sim_started_time"], [r.started_iv])
            elif not (r.started or np.isinf(h["sim_started_time"]) or h["sim_started_time"] == 0):
                bad("sim_started_time of a point not given out", float(h["sim_started_time"]), "inf")
            if r.ended_iv is not None:
                inside("sim_ended_time", h["sim_ended_time"], [r.ended_iv])
            elif not r.ended and h["sim_ended_time"] != 0:
                bad("sim_ended_time of a point without result", float(h["sim_ended_time"]), 0.0)
        if r.informed_iv:
            inside("gen_informed_time", h["gen_informed_time"], r.informed_iv)
        elif not r.informed and r.h0 is None and np.isfinite(h["gen_informed_time"]):
            bad("gen_informed_time of a point whose result was not given to a generator", float(h["gen_informed_time"]), "inf")
