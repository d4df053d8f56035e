"""C24: APOSMM's incremental bookkeeping equals its definition at every step."""
import contextlib
import copy
import io
import os
import queue

import numpy as np
from hypothesis import strategies as st

from vlib import ens
from vlib.core import Target, Violation, require

TECHNIQUE = "model-based property testing: generated point sets and evaluation orders against a direct computation of the documented definitions, and generated manager schedules for the real generator with its local optimisers, compared with the optimisers run alone"
RULE = (
    "(dists) Points on grids (ties in distance and value, duplicates, boundary) or at random, in 1-3 dimensions, sample and "
    "local points mixed, values with ties, NaN and infinities, evaluated in arbitrary batches, some never: after every "
    "batch the recorded nearest better points, their distances and the distance to the boundary are compared with a direct "
    "computation, and the starting points offered with the documented criteria, for arbitrary run flags and parameters. "
    "(gen) The real generator with a scripted manager that returns any outstanding points in any order and grouping; "
    "objectives with several minima, plateaus and NaN, given sample points, earlier points, limits on active runs, minima "
    "and runs: every start, point and run is checked against the model, the bookkeeping it returns likewise, and each "
    "local run against the same optimiser run alone from the same point. Non-trivial: a value tie or several batches "
    "(dists); two local runs active at the same time (gen)."
)
ASSUMPTIONS = [
    "points are scaled to the unit cube by the generator; distances within 1e-10 of a threshold may go either way",
    "equal values: a point counts as better than an equal one if it was evaluated no later (as the code documents)",
    "bounds are judged for the optimisers that are given bounds (NLopt except with periodic domains); PETSc, IBCDFO and external optimisers are not installed",
]

TOL = 1e-10


def shard_setup():
    ens.quiet_logs()
    os.environ["OMP_NUM_THREADS"] = "1"


# ------------------------------------------------------------------ the definition


def nearest_better(X, f, batch, kind, strict=False):
    """For each point evaluated: (distance, candidates) of the nearest better point of the kind (mask).

    batch: number of the update in which a point became known, 0 for never."""
    N = len(f)
    D = np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2))
    out = []
    for i in range(N):
        if not batch[i]:
            out.append((np.inf, {-1}))
            continue
        better = [
            j for j in range(N) if j != i and kind[j] and batch[j] and (f[j] < f[i] or (not strict and f[j] == f[i] and batch[j] <= batch[i]))
        ]
        if not better:
            out.append((np.inf, {-1}))
        else:
            d = min(D[i, j] for j in better)
            out.append((d, {j for j in better if D[i, j] <= d + TOL}))
    return out


def was_best(i, f, batch, loc):
    """Whether the point was among the best sample points when it became known."""
    return bool(batch[i]) and not loc[i] and f[i] <= min(f[j] for j in range(len(f)) if batch[j] and batch[j] <= batch[i] and not loc[j])


def check_dists(H, f, batch, what):
    X = H["x_on_cube"]
    loc = H["local_pt"].astype(bool)
    res = {}
    for name, kind in (("l", loc), ("s", ~loc)):
        ref = nearest_better(X, f, batch, kind)
        alone = nearest_better(X, f, batch, kind, strict=True) if name == "s" else None
        for i, (d, cand) in enumerate(ref):
            got, ind = H["dist_to_better_" + name][i], int(H["ind_of_better_" + name][i])
            ok = (got == d or abs(got - d) <= TOL) and ind in cand
            if not ok and name == "s" and was_best(i, f, batch, loc):
                d1, c1 = alone[i]  # one of equally good best sample points stands for the best one
                ok = (got == d1 or abs(got - d1) <= TOL) and ind in c1
            require(
                ok,
                lambda: f"{what}: point {i} (f {f[i]}, {'local' if loc[i] else 'sample'}, evaluated in update {batch[i]}) has "
                f"dist_to_better_{name} {got}, ind_of_better_{name} {ind}; direct computation: {d} at {sorted(cand)[:6]}",
                f"dist_to_better_{name} or its index is not that of the nearest better point",
            )
        res[name] = ref
    for i in range(len(f)):
        if batch[i]:
            b = min(min(1 - X[i]), min(X[i]))
            require(abs(H["dist_to_unit_bounds"][i] - b) <= TOL, f"{what}: dist_to_unit_bounds of point {i} is {H['dist_to_unit_bounds'][i]}, should be {b}", "distance to the bounds")
    return res


def rk(n, n_s, const, ld):
    """The critical distance as documented."""
    if not ld:
        return 1e8 if n_s == 1 else const * (np.log(n_s) / n_s) ** (1 / n)
    k = int(n_s // ld)
    return np.inf if k <= 1 else const * (np.log(k) / k) ** (1 / n)


def default_const(n):
    from math import gamma, pi, sqrt

    return ((gamma(1 + n / 2.0) * 5.0) ** (1.0 / n)) / sqrt(pi)


def start_criteria(i, X, f, batch, loc, ref, r, mu, nu, minima, started, in_active, is_min):
    """(must, may): whether point i satisfies the documented criteria for sure / with tolerance."""
    if not batch[i] or np.isinf(f[i]) or started[i]:
        return False, False
    must = may = True

    def gt(a, b):
        nonlocal must, may
        if a == b == np.inf:
            must = may = False
            return
        must = must and a > b + TOL
        may = may and a > b - TOL

    def ge(a, b):
        nonlocal must, may
        must = must and a >= b + (TOL if b else 0)
        may = may and a >= b - TOL

    gt(ref["s"][i], r)
    gt(ref["l"][i], r)
    ge(min(min(1 - X[i]), min(X[i])), mu)
    if nu > 0:
        for m in minima:
            ge(np.sqrt(((X[i] - X[m]) ** 2).sum()), nu)
    if loc[i]:
        if in_active[i] or is_min[i]:
            return False, False
    return must, may


# ------------------------------------------------------------------ dists


def dists_strategy():
    val = st.one_of(st.integers(0, 3).map(float), st.floats(-5, 5, allow_nan=False), st.sampled_from([np.inf, np.nan, 0.0, -1.0]))
    pt = st.fixed_dictionaries(
        {
            "c": st.lists(st.one_of(st.integers(0, 4).map(lambda i: i / 4), st.integers(0, 1000).map(lambda i: i / 1000)), min_size=3, max_size=3),
            "f": val,
            "local": st.booleans(),
            "batch": st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5]),
            "started": st.sampled_from([False, False, False, True]),
            "act": st.sampled_from([0, 0, 0, 1, 2]),
            "min": st.sampled_from([False, False, False, False, True]),
        }
    )
    return st.fixed_dictionaries(
        {
            "n": st.integers(1, 3),
            "pts": st.lists(pt, min_size=1, max_size=24),
            "grow": st.booleans(),
            "mu": st.sampled_from([0, 1e-4, 0.1, 0.25]),
            "nu": st.sampled_from([0, 0, 1e-8, 0.1, 0.3]),
            "const": st.sampled_from([None, 0.05, 0.3, 1.0]),
            "ld": st.sampled_from([0, 0, 0, 2, 5]),
            "paused": st.booleans(),
        }
    )


def empty_history(N, n):
    dt = [
        ("f", float), ("grad", float, n), ("x", float, n), ("x_on_cube", float, n), ("local_pt", bool), ("known_to_aposmm", bool),
        ("dist_to_unit_bounds", float), ("dist_to_better_l", float), ("dist_to_better_s", float), ("ind_of_better_l", int),
        ("ind_of_better_s", int), ("started_run", bool), ("num_active_runs", int), ("local_min", bool), ("sim_id", int),
        ("paused", bool), ("sim_ended", bool),
    ]
    H = np.zeros(N, dtype=dt)
    for k in ("dist_to_unit_bounds", "dist_to_better_l", "dist_to_better_s"):
        H[k] = np.inf
    for k in ("ind_of_better_l", "ind_of_better_s"):
        H[k] = -1
    H["sim_id"] = np.arange(N)
    return H


def dists(case, rec):
    from libensemble.gen_funcs import persistent_aposmm as pa

    n, pts = case["n"], case["pts"]
    N = len(pts)
    H = empty_history(N, n)
    for i, p in enumerate(pts):
        H["x_on_cube"][i] = p["c"][:n]
        H["local_pt"][i] = p["local"]
    f = np.array([p["f"] for p in pts])
    batch = np.zeros(N, int)
    nb = 0
    for b in range(1, 6):
        new = [i for i, p in enumerate(pts) if p["batch"] == b]
        if not new:
            continue
        nb += 1
        H["f"][new] = f[new]
        H["sim_ended"][new] = True
        for i in new:
            if not np.isnan(f[i]):
                batch[i] = b
        with contextlib.redirect_stdout(io.StringIO()):
            pa.update_history_dist(H, n)
        check_dists(H, f, batch, f"after update {b}")
        known = batch > 0
        n_s = int(np.sum(H["sim_ended"] & ~H["local_pt"]))
        if n_s == 0:
            continue
        G = H.copy()
        G["started_run"] = [p["started"] and known[i] for i, p in enumerate(pts)]
        G["num_active_runs"] = [p["act"] for p in pts]
        G["local_min"] = [p["min"] and bool(known[i]) for i, p in enumerate(pts)]
        const = case["const"] or default_const(n)
        before = G.copy()
        got = list(pa.decide_where_to_start_localopt(G, n, n_s, const, case["ld"], case["mu"], case["nu"]))
        require(G.tobytes() == before.tobytes(), "deciding where to start changes the history", "deciding changes the history")
        r = rk(n, n_s, const, case["ld"])
        X, loc = H["x_on_cube"], H["local_pt"].astype(bool)
        ref = {"l": H["dist_to_better_l"], "s": H["dist_to_better_s"]}  # verified above
        minima = np.flatnonzero(G["local_min"])
        args = (X, f, batch, loc, ref, r, case["mu"], case["nu"], minima, G["started_run"], G["num_active_runs"] != 0, G["local_min"])
        for i in range(N):
            must, may = start_criteria(i, *args)
            require(i not in got or may, f"point {i} may start a run but does not satisfy the criteria (r_k {r}, {G[i]})", "start from a point that does not satisfy the criteria")
            require(i in got or not must, f"point {i} satisfies the criteria but may not start a run (r_k {r}, {G[i]})", "no start from a point that satisfies the criteria")
        require(len(set(got)) == len(got), f"starting points {got}", "starting point twice")
        require(all(f[a] <= f[b] for a, b in zip(got, got[1:])), f"starting points {got} are not in the order of their values {f[got]}", "starting points not by value")
        if got:
            rec.label("starts")
    fin = f[(batch > 0)]
    rec.label(f"{nb} updates")
    rec.nontrivial(nb >= 2 or len(set(fin)) < len(fin), interest=N)


# ------------------------------------------------------------------ the generator

METHODS = ["LN_BOBYQA", "LN_BOBYQA", "LN_SBPLX", "LN_COBYLA", "LN_NELDERMEAD", "LD_MMA", "scipy_Nelder-Mead", "scipy_COBYLA", "scipy_BFGS", "dfols"]


def gen_strategy():
    return st.fixed_dictionaries(
        {
            "n": st.integers(1, 3),
            "method": st.sampled_from(METHODS),
            "lb": st.lists(st.sampled_from([-3.0, -1.0, 0.0, 2.5]), min_size=3, max_size=3),
            "width": st.lists(st.sampled_from([1.0, 0.5, 4.0, 100.0]), min_size=3, max_size=3),
            "obj": st.fixed_dictionaries(
                {
                    "wells": st.lists(st.tuples(st.lists(st.integers(0, 10), min_size=3, max_size=3), st.integers(0, 2)), min_size=1, max_size=4),
                    "flat": st.sampled_from([None, None, None, 0.05, 0.3]),
                    "nan": st.sampled_from([0, 0, 0, 5]),
                }
            ),
            "init": st.integers(1, 8),
            "given": st.integers(0, 12),
            "H0": st.sampled_from([0, 0, 0, 3, 6]),
            "nw": st.integers(2, 6),
            "max_active": st.sampled_from([None, 1, 1, 2, 3, 6]),
            "stop": st.sampled_from([None, None, None, "minima1", "minima2", "runs1", "runs2"]),
            "max_eval": st.sampled_from([None, 5, 12, 30]),
            "tol": st.sampled_from([1e-1, 1e-2, 1e-4]),
            "mult": st.sampled_from([0.01, 0.3, 0.5, 1.0]),
            "mu": st.sampled_from([None, 0.01, 0.1]),
            "nu": st.sampled_from([None, None, 1e-8, 0.1]),
            "const": st.sampled_from([None, None, 1e-3, 0.1, 0.5]),
            "ld": st.sampled_from([0, 0, 0, 2]),
            "periodic": st.sampled_from([False, False, False, False, True]),
            "steps": st.integers(2, 40),
            "pick": st.lists(st.integers(0, 60), min_size=1, max_size=20),
            "seed": st.integers(0, 1000),
        }
    )


class Problem:
    def __init__(self, case):
        n = self.n = case["n"]
        self.lb = np.array(case["lb"][:n])
        self.ub = self.lb + np.array(case["width"][:n])
        self.o = case["obj"]
        self.centres = [np.array(c[:n]) / 10.0 for c, _ in self.o["wells"]]
        self.depth = [d for _, d in self.o["wells"]]

    def cube(self, x):
        return (x - self.lb) / (self.ub - self.lb)

    def fvec(self, u):
        k = int(np.argmin([np.sum((u - c) ** 2) - 0.1 * d for c, d in zip(self.centres, self.depth)]))
        return np.append(u - self.centres[k], 0.3 * (2 - self.depth[k]))

    def f(self, u):
        v = float(np.sum(self.fvec(u) ** 2))
        if self.o["flat"]:
            v = np.floor(v / self.o["flat"]) * self.o["flat"]
        return v

    def grad(self, u):
        return 2 * self.fvec(u)[: self.n]


def specs_for(case, prob):
    m = case["method"]
    user = {
        "lb": prob.lb, "ub": prob.ub, "initial_sample_size": case["init"], "localopt_method": m,
        "dist_to_bound_multiple": case["mult"],
    }
    if m.startswith("L"):
        user.update(xtol_rel=case["tol"], ftol_rel=case["tol"], xtol_abs=case["tol"] / 10)
        if case["max_eval"]:
            user["run_max_eval"] = case["max_eval"]
    elif m == "scipy_Nelder-Mead":
        user.update(opt_return_codes=[0], scipy_kwargs={"options": {"maxfev": case["max_eval"] or 200, "fatol": case["tol"], "xatol": case["tol"]}})
    elif m == "scipy_COBYLA":
        user.update(opt_return_codes=[1], scipy_kwargs={"tol": case["tol"], "options": {"maxiter": case["max_eval"] or 200}})
    elif m == "scipy_BFGS":
        user.update(opt_return_codes=[0], scipy_kwargs={"options": {"maxiter": case["max_eval"] or 50, "gtol": case["tol"]}})
    else:
        user.update(components=prob.n + 1, dfols_kwargs={"do_logging": False, "rhoend": case["tol"] * 1e-5, "user_params": {"model.abs_tol": 1e-10, "model.rel_tol": 1e-4}})
    for k, name in (("max_active", "max_active_runs"), ("mu", "mu"), ("nu", "nu"), ("const", "rk_const")):
        if case[k] is not None:
            user[name] = case[k]
    if m == "dfols":
        user["mu"] = max(user.get("mu", 0), 0.01)  # its first radius must be above its last one
    if case["ld"]:
        user["lhs_divisions"] = case["ld"]
    if case["periodic"] and m.startswith("L") and m != "LD_MMA":
        user["periodic"] = True
    if case["stop"]:
        user["stop_after_k_" + case["stop"][:-1]] = int(case["stop"][-1])
    rng = np.random.default_rng(case["seed"])
    if case["given"]:
        user["sample_points"] = prob.lb + rng.integers(1, 8, (case["given"], prob.n)) / 8.0 * (prob.ub - prob.lb)
    out = [("x", float, prob.n), ("x_on_cube", float, prob.n), ("sim_id", int), ("local_min", bool), ("local_pt", bool)]
    return {"in": ["x", "x_on_cube", "f", "sim_id", "local_pt", "sim_ended"], "out": out, "user": user}


def fields_of(method, n):
    fs = [("f", float)]
    if method in ("LD_MMA", "scipy_BFGS"):
        fs.append(("grad", float, n))
    if method == "dfols":
        fs.append(("fvec", float, n + 1))
    return fs


class Manager:
    """Answers the generator like a manager that returns the points in the order of the case."""

    def __init__(self, case, prob, nH0):
        self.case, self.prob = case, prob
        self.rows = []  # as sent: x_on_cube, local_pt
        self.f = []
        self.batch = []  # number of the update that brought the value, 0: none
        self.step_sent = []
        self.returned = []
        self.step = 0
        self.steps = []  # per response: {'new': ids, 'opt': ids, 'ret': ids}
        self.out = []
        self.npick = 0
        self.nH0 = nH0
        self.told_min = {}
        self.stopped = False

    def add(self, u, local, step):
        self.rows.append(np.array(u))
        self.local.append(bool(local))
        self.f.append(None)
        self.batch.append(0)
        self.step_sent.append(step)

    local = None

    def pick(self, n):
        v = self.case["pick"][self.npick % len(self.case["pick"])]
        self.npick += 1
        return v % n if n else 0

    def value(self, i):
        u = self.rows[i]
        v = self.prob.f(u)
        if self.case["obj"]["nan"] and not self.local[i] and i and i % self.case["obj"]["nan"] == 0:
            v = np.nan
        return v

    def take(self, out):
        """The generator sends rows; returns what it gets back or None for stop."""
        k = len(self.steps)
        new, opt = [], []
        for row in out:
            i = int(row["sim_id"])
            if i < len(self.rows):
                require(bool(row["local_min"]) or True, "", "")
                require(np.array_equal(row["x_on_cube"], self.rows[i]), f"point {i} is sent again with other coordinates", "a point changed")
                opt.append(i)
                if row["local_min"]:
                    self.told_min.setdefault(i, k)
            else:
                require(i == len(self.rows), f"new point with sim_id {i} where {len(self.rows)} is next", "sim_id of a new point")
                x, u = np.atleast_1d(row["x"]), np.atleast_1d(row["x_on_cube"])
                require(
                    np.allclose(x, self.prob.lb + u * (self.prob.ub - self.prob.lb), rtol=1e-12, atol=1e-9) or self.case["periodic"],
                    f"x {x} and x_on_cube {u} of point {i} do not belong together", "x and x_on_cube differ",
                )
                bounded = self.case["method"].startswith("L") and not self.case["periodic"]
                if bounded or not row["local_pt"]:
                    require(
                        np.all(u >= -1e-12) and np.all(u <= 1 + 1e-12) and np.all(x >= self.prob.lb - 1e-9) and np.all(x <= self.prob.ub + 1e-9),
                        f"point {i}, {x}, is outside the bounds {self.prob.lb}, {self.prob.ub}", "a point outside the bounds",
                    )
                self.add(u, row["local_pt"], k)
                self.out.append(i)
                new.append(i)
        self.steps.append({"new": new, "opt": opt, "ret": []})
        if len(self.steps) > self.case["steps"] or not self.out:
            self.stopped = True
            return None
        if len(self.steps) == 1 and self.case["init"]:
            ids = list(self.out)  # the whole sample comes back at once
        else:
            m = 1 + self.pick(min(len(self.out), 8))
            ids = []
            pool = list(self.out)
            for _ in range(m):
                ids.append(pool.pop(self.pick(len(pool))))
        for i in ids:
            self.out.remove(i)
        rows = np.zeros(len(ids), dtype=[("sim_id", int), ("x_on_cube", float, (self.prob.n,)), ("x", float, (self.prob.n,))] + fields_of(self.case["method"], self.prob.n))
        for r, i in zip(rows, ids):
            u = self.rows[i]
            r["sim_id"], r["x_on_cube"] = i, u
            r["x"] = self.prob.lb + u * (self.prob.ub - self.prob.lb)
            self.f[i] = r["f"] = self.value(i)
            if "grad" in rows.dtype.names:
                r["grad"] = self.prob.grad(u)
            if "fvec" in rows.dtype.names:
                r["fvec"] = self.prob.fvec(u)
            if not np.isnan(self.f[i]):
                self.batch[i] = len(self.steps) + 1  # update numbers: 1 is H0's
        self.steps[-1]["ret"] = ids
        return ids, rows


def comm_for(man):
    from libensemble.comms.comms import QComm
    from libensemble.message_numbers import EVAL_GEN_TAG, MAN_SIGNAL_FINISH, PERSIS_STOP

    inbox = queue.Queue()

    class Comm(QComm):
        def send(self, *args):
            d = args[1]
            reply = man.take(np.array(d["calc_out"], copy=True))
            self.feed(reply)

        def feed(self, reply):
            if reply is None:
                inbox.put((PERSIS_STOP, MAN_SIGNAL_FINISH))
                return
            ids, rows = reply
            inbox.put((EVAL_GEN_TAG, {"libE_info": {"H_rows": np.array(ids), "persistent": True}, "persis_info": {}, "tag": EVAL_GEN_TAG}))
            inbox.put((0, rows))

        def recv(self, timeout=None):
            if self.recv_buffer is None and inbox.empty():
                raise Violation("the generator waits for a message, but nothing is to come", "generator waits")
            return super().recv(timeout)

    return Comm(inbox, queue.Queue())


def gen(case, rec):
    import psutil

    from libensemble.gen_funcs.persistent_aposmm import aposmm

    prob = Problem(case)
    specs = specs_for(case, prob)
    user = specs["user"]
    n = prob.n
    man = Manager(case, prob, case["H0"])
    man.local = []
    H0 = np.zeros(case["H0"], dtype=[("x", float, n), ("x_on_cube", float, n), ("f", float), ("sim_id", int), ("local_pt", bool), ("sim_ended", bool)] + [x for x in fields_of(case["method"], n) if x[0] != "f"])
    rng = np.random.default_rng(case["seed"] + 5)
    for i in range(case["H0"]):
        u = rng.integers(1, 8, n) / 8.0
        man.add(u, False, -1)
        man.f[i] = prob.f(u)
        man.batch[i] = 1
        H0[i]["x_on_cube"], H0[i]["x"], H0[i]["f"], H0[i]["sim_id"], H0[i]["sim_ended"] = u, prob.lb + u * (prob.ub - prob.lb), man.f[i], i, True
        if "grad" in H0.dtype.names:
            H0[i]["grad"] = prob.grad(u)
        if "fvec" in H0.dtype.names:
            H0[i]["fvec"] = prob.fvec(u)
    if case["H0"] and "grad" in H0.dtype.names and np.all(H0["grad"] == 0):
        return  # refused by the generator
    persis_info = {"rand_stream": np.random.default_rng(case["seed"]), "nworkers": case["nw"]}
    info = {"comm": comm_for(man), "executor": None, "workerID": 1, "H_rows": np.arange(case["H0"])}
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        H, pi, tag = aposmm(H0, persis_info, copy.deepcopy(specs), info)
    left = [p for p in psutil.Process().children(recursive=True) if p.status() != psutil.STATUS_ZOMBIE and "resource_tracker" not in " ".join(p.cmdline())]
    require(not left, f"local optimiser processes are left: {left}", "processes left")
    N = len(man.rows)
    if not man.stopped:  # it left by itself, without looking at the last values
        for i in man.steps[-1]["ret"]:
            man.f[i], man.batch[i] = None, 0
        man.steps[-1]["ret"] = []
    require(len(H) == N, f"history of {len(H)} points, {N} points were exchanged", "history length")
    f = np.array([np.nan if v is None else v for v in man.f])
    batch = np.array(man.batch)
    for i in range(N):
        require(np.array_equal(H["x_on_cube"][i], man.rows[i]) and bool(H["local_pt"][i]) == man.local[i], f"row {i} of the history is not the point that was sent", "history differs from the points sent")
        if batch[i]:
            require(H["f"][i] == f[i] and H["sim_ended"][i], f"point {i} got value {f[i]}; the history holds {H['f'][i]}", "a value is recorded wrongly")
    # values of the last batch reach the history only if the generator went on
    check_dists(H, f, batch, "at the end")
    runs = {k: [int(i) for i in v] for k, v in pi["run_order"].items()}
    judge_runs(case, rec, man, H, runs, f, user)
    replay(case, rec, man, runs, f, user, specs)


def judge_runs(case, rec, man, H, runs, f, user):
    n, N = man.prob.n, len(man.rows)
    nsteps = len(man.steps)
    loc = np.array(man.local)
    ret_step = {}
    for k, s in enumerate(man.steps):
        for i in s["ret"]:
            ret_step[i] = k
    owner = {}
    for r, order in runs.items():
        require(len(set(order)) == len(order), f"run {r} holds {order}", "a point twice in a run")
        for i in order[1:]:
            require(loc[i], f"point {i} of run {r} is not marked local", "a run holds a point that is not local")
            owner.setdefault(i, []).append(r)
        for a, b in zip(order[1:], order[2:]):
            require(a in ret_step and ret_step[a] + 1 == man.step_sent[b], f"run {r}: point {b} was sent in response {man.step_sent[b]}, its predecessor {a} was evaluated after response {ret_step.get(a)}", "a run's point does not follow from its last one")
    for i in range(N):
        if loc[i]:
            require(len(owner.get(i, [])) == 1, f"local point {i} belongs to runs {owner.get(i, [])}", "a local point is not recorded in exactly one run")
    # a run is active from the response that starts it to the one after its last point's value without a new point
    born, died = {}, {}
    at_once = {}  # runs whose starting point is their optimum
    for r, o in runs.items():
        if len(o) == 1:
            ks = [k for k, s in enumerate(man.steps) if o[0] in s["opt"]]
            require(ks, f"run {r} holds only its starting point {o[0]}, which was not sent again", "a run without a point")
            born[r] = died[r] = ks[-1]
            at_once[o[0]] = ks[-1]
            continue
        born[r] = man.step_sent[o[1]]
        if o[-1] in ret_step and ret_step[o[-1]] + 1 < nsteps:
            died[r] = ret_step[o[-1]] + 1
    cap = user.get("max_active_runs", np.inf)
    most = 0
    for k in range(nsteps):
        act = [r for r in runs if born[r] <= k and not (r in died and died[r] <= k)]
        most = max(most, len(act))
        require(len(act) <= cap, f"runs {act} are active after response {k}, at most {cap} allowed", "too many active runs")
    # starts
    X = np.array(man.rows)
    batch = np.array(man.batch)
    mu, nu = user.get("mu", 1e-4), user.get("nu", 0)
    const = user.get("rk_const", default_const(n))
    sure_min = {i: k for i, k in man.told_min.items()}
    unsure_min = [i for i in range(N) if H["local_min"][i] and i not in sure_min]
    first_decision = 1 if case["init"] else 0
    ended = 0
    for k in range(first_decision, nsteps):
        upd = np.array([b if b and (b == 1 or b <= k + 1) else 0 for b in batch])  # values known when response k is made
        M = [i for i in range(N) if man.step_sent[i] < k]  # points that exist
        ex = np.array(M, int)
        starts = [runs[r][0] for r in runs if born[r] == k]
        n_s = sum(1 for i in M if not loc[i] and (man.step_sent[i] == -1 or (i in ret_step and ret_step[i] < k)))
        if n_s == 0:
            continue
        ref = {}
        for name, kind in (("l", loc), ("s", ~loc)):
            ref[name] = [d for d, _ in nearest_better(X[ex], f[ex], upd[ex], kind[ex])]
        alone = [d for d, _ in nearest_better(X[ex], f[ex], upd[ex], ~loc[ex], strict=True)]
        ties = [j for j, i in enumerate(M) if was_best(j, f[ex], upd[ex], loc[ex])]
        r = rk(n, n_s, const, case["ld"])
        minima = [i for i, s in sure_min.items() if s <= k and at_once.get(i) != k]
        act = [q for q in runs if born[q] < k and not (q in died and died[q] <= k)]
        in_act = np.zeros(N, bool)
        for q in act:
            for i in runs[q][1:]:
                if man.step_sent[i] <= k:
                    in_act[i] = True
        started = np.zeros(N, bool)
        for q in runs:
            if born[q] < k:
                started[runs[q][0]] = True
        is_min = np.zeros(N, bool)
        is_min[minima] = True

        def judge(j, tie):
            rr = {"l": ref["l"], "s": alone} if tie else ref
            minj = [M.index(m) for m in minima if m in M]
            return start_criteria(j, X[ex], f[ex], upd[ex], loc[ex], rr, r, mu, nu, minj, started[ex], in_act[ex], is_min[ex])

        musts = []
        for j, i in enumerate(M):
            must, may = judge(j, False)
            if j in ties:
                m2, may2 = judge(j, True)
                may = may or may2
                must = must and m2
            require(i not in starts or may, lambda: f"response {k}: a run starts from point {i} (f {f[i]}, {'local' if loc[i] else 'sample'}), which does not satisfy the criteria: dist_to_better s {ref['s'][j]}, l {ref['l'][j]}, r_k {r}, in active run {in_act[i]}, minima {minima}", "a run starts from a point that does not satisfy the criteria")
            if must:
                musts.append(i)
        for i in starts:
            require(i in M, f"response {k}: run from point {i}, which did not exist", "a run starts from an unknown point")
        if not unsure_min and len(act) + len(starts) < cap:
            miss = [i for i in musts if i not in starts]
            require(not miss, f"response {k}: points {miss} satisfy the criteria (r_k {r}), {len(act) + len(starts)} runs are active of at most {cap}, but no run starts", "no run starts where the criteria are met")
    # stopping on request
    nmin = np.inf if case["stop"] is None or not case["stop"].startswith("minima") else int(case["stop"][-1])
    nrun = np.inf if case["stop"] is None or not case["stop"].startswith("runs") else int(case["stop"][-1])
    for k in range(nsteps - 1):
        ended = sum(1 for r in died if died[r] <= k)
        require(ended < nrun, f"{ended} runs have ended by response {k}, yet the generator goes on (stop_after_k_runs {nrun})", "the generator goes on after the last run")
        got = len({i for i, s in sure_min.items() if s <= k})
        require(got < nmin, f"{got} minima are identified by response {k}, yet the generator goes on (stop_after_k_minima {nmin})", "the generator goes on after the last minimum")
    if not man.stopped:
        ended = len(died)
        require(case["stop"] is not None and (int(np.sum(H["local_min"])) >= nmin or ended >= nrun), "the generator leaves by itself without reason", "the generator leaves by itself")
        rec.label("stopped by itself")
    if runs:
        rec.label("runs")
    if died:
        rec.label("ended runs")
    if man.told_min:
        rec.label("minima")
    rec.nontrivial(most >= 2, interest=len(runs))


def replay(case, rec, man, runs, f, user, specs):
    """Each run must be what the optimiser does alone."""
    from libensemble.gen_funcs.aposmm_localopt_support import LocalOptInterfacer

    if user.get("periodic"):
        return
    todo = sorted(runs, key=lambda r: -len(runs[r]))[:1]
    for r in todo:
        order = runs[r]
        done = [i for i in order if man.f[i] is not None]
        u0 = man.rows[order[0]]
        dt = [("x_on_cube", float, (man.prob.n,))] + [x for x in fields_of(case["method"], man.prob.n) if not (case["method"] == "dfols" and x[0] == "f")]

        def data(i, u):
            d = np.zeros(1, dtype=dt)[0]
            d["x_on_cube"] = u
            if "f" in d.dtype.names:
                d["f"] = f[i]
            if "grad" in d.dtype.names:
                d["grad"] = man.prob.grad(u)
            if "fvec" in d.dtype.names:
                d["fvec"] = man.prob.fvec(u)
            return d

        d0 = data(order[0], u0)
        with contextlib.redirect_stdout(io.StringIO()):
            opt = LocalOptInterfacer(user, u0, d0["fvec"] if "fvec" in dt[-1][0] else d0["f"], d0["grad"] if "grad" in d0.dtype.names else None)
            try:
                seq = [u0]
                for i in order:
                    if i not in done:
                        break
                    x = opt.iterate(data(i, seq[-1]))
                    if not isinstance(x, np.ndarray):
                        break
                    seq.append(np.array(x[0]))
            finally:
                opt.destroy()
        got = [man.rows[i] for i in order]
        m = min(len(seq), len(got))
        for j in range(m):
            require(np.allclose(seq[j], got[j], rtol=0, atol=1e-9), f"run {r} from point {order[0]}: its {j}-th point is {got[j]}, the optimiser alone asks for {seq[j]}", "a run is not what its optimiser does alone")
        require(len(got) <= len(seq), f"run {r} has {len(got)} points, the optimiser alone {len(seq)}", "a run goes on after its optimiser ended")
        last = order[-1]
        if last in done and len(seq) > len(got):
            k = [s for s, x in enumerate(man.steps) if last in x["ret"]][0]
            require(k + 1 >= len(man.steps), f"run {r} ended after point {last}, the optimiser alone goes on to {seq[len(got)]}", "a run ended early")
        rec.label("replayed run")


TARGETS = [
    Target("dists", dists_strategy, dists, 6000, 200000),
    Target("gen", gen_strategy, gen, 240, 6000),
]
