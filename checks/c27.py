"""C27: bundled generators respect bounds and batch sizes and are reproducible; test functions agree with themselves."""
import contextlib
import copy
import importlib
import io
import os
import queue
import shutil
import stat
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens
from vlib.core import Target, Violation, require

TECHNIQUE = "property-based testing: bundled generators and test functions called on generated specifications and manager dialogues; invariants, twin runs on equal random streams, running-mean and stencil models, difference quotients"
RULE = (
    "(ordinary, persistent) every bundled sampling generator with generated bounds, dimensions, batch sizes and, for persistent ones, a generated "
    "dialogue with the manager (numbers of points given back, signals): number of points, bounds, fields for resources, priorities, components, "
    "cancellation, twin runs on equal streams under different global random states, streams that carry on, Latin-hypercube strata; (classes) "
    "sampling classes; (stencil) fd_param_finder with a stand-in for octave; (functions) gradients against difference quotients, batches against "
    "single points, components against totals. Non-trivial: at least two batches, or two dimensions and four points."
)
ASSUMPTIONS = ["fd_param_finder: nf even (its base point is on the stencil)", "gradients are compared with central differences within 1e-4 of their scale"]
CAP_S = 100
S = "libensemble.gen_funcs.sampling"
P = "libensemble.gen_funcs.persistent_sampling"
V = "libensemble.gen_funcs.persistent_sampling_var_resources"


def shard_setup():
    ens.quiet_logs()


def quiet(f):
    """Some generators print what they do."""

    def run(case, rec):
        with contextlib.redirect_stdout(io.StringIO()):
            f(case, rec)

    return run


def func(mod, name):
    return getattr(importlib.import_module(mod), name)


def inside(x, lb, ub, what):
    require(bool(np.all(np.isfinite(x)) and np.all(x >= lb) and np.all(x <= ub)), lambda: f"{what}: points {x.tolist()} outside [{lb.tolist()}, {ub.tolist()}]", "point out of bounds")
    if len(x) >= 64:  # the whole box is sampled (the chance of a false alarm is 2**-63 per dimension)
        mid = (lb + ub) / 2
        require(bool(np.all((x < mid).any(axis=0)) and np.all((x > mid).any(axis=0))), lambda: f"{what}: {len(x)} points leave half of the box out", "part of the box never sampled")


def distinct(x, what):
    require(len(np.unique(x, axis=0)) == len(x), lambda: f"{what}: points repeat: {x.tolist()}", "points repeat")


def same(a, b, what):
    require(a.dtype == b.dtype and a.tobytes() == b.tobytes(), lambda: f"{what}: equal streams give {a} and {b}", "not reproducible")


# ------------------------------------------------------------------ ordinary generators

ORDINARY = [
    "uniform_random_sample",
    "uniform_random_sample_with_variable_resources",
    "uniform_random_sample_with_var_priorities_and_resources",
    "uniform_random_sample_obj_components",
    "latin_hypercube_sample",
    "uniform_random_sample_cancel",
    "uniform_or_localopt",
]


def box():
    return st.lists(
        st.tuples(st.sampled_from([-1000.0, -3.0, -1.0, 0.0, 0.25, 7.0]), st.sampled_from([0.001, 0.5, 1.0, 3.0, 1000.0])), min_size=1, max_size=4
    )


def bounds(case):
    lb = np.array([a for a, _ in case["box"]])
    return lb, lb + np.array([w for _, w in case["box"]])


def ordinary_strategy():
    return st.fixed_dictionaries(
        {
            "gen": st.sampled_from(ORDINARY),
            "box": box(),
            "b": st.one_of(st.integers(1, 12), st.sampled_from([1, 64, 100])),
            "calls": st.integers(1, 4),
            "max": st.integers(1, 6),
            "m": st.integers(1, 4),
            "seed": st.integers(0, 1000),
        }
    )


def ordinary_dtype(name, n):
    out = [("x", float, (n,))]
    if "resource" in name:
        out.append(("resource_sets", int))
    if "priorities" in name or "components" in name:
        out.append(("priority", float))
    if "components" in name:
        out += [("obj_component", int), ("pt_id", int)]
    if "cancel" in name:
        out.append(("cancel_requested", bool))
    if "localopt" in name:
        out += [("x_on_cube", float, (n,)), ("local_pt", bool), ("local_min", bool), ("sim_id", int), ("dist_to_unit_bounds", float), ("dist_to_better_l", float), ("dist_to_better_s", float), ("ind_of_better_l", int), ("ind_of_better_s", int), ("started_run", bool), ("num_active_runs", int), ("active", bool)]
    return out


def ordinary_calls(case, seed, glob, split=False):
    name = case["gen"]
    lb, ub = bounds(case)
    n = len(lb)
    f = func("libensemble.gen_funcs.uniform_or_localopt" if name == "uniform_or_localopt" else S, name)
    spec = {"user": {"lb": lb, "ub": ub, "gen_batch_size": case["b"], "initial_batch_size": case["b"], "max_resource_sets": case["max"], "components": case["m"]}, "out": ordinary_dtype(name, n)}
    H = np.zeros(0, dtype=spec["out"])
    pi = {"rand_stream": np.random.default_rng(seed), "worker_num": 1}
    res = []
    np.random.seed(glob)
    for _ in range(case["calls"]):
        args = [H, pi, spec] + ([{}] if name == "uniform_or_localopt" else [])
        keep = (copy.deepcopy(H), copy.deepcopy(spec["user"]))
        out, pi = f(*args)[:2]
        require(keep[0].tobytes() == H.tobytes() and repr(keep[1]) == repr(spec["user"]), f"{name} changes its input", "input changed")
        require(isinstance(out, np.ndarray) and out.dtype == np.dtype(spec["out"]), lambda: f"{name} returns {out.dtype}", "fields of the output")
        res.append(out)
        if split:  # what the manager does with the entry
            pi = copy.deepcopy(pi)
        H = np.concatenate([H, out])
    return res, lb, ub


def ordinary(case, rec):
    name = case["gen"]
    res, lb, ub = ordinary_calls(case, case["seed"], 1)
    twin, _, _ = ordinary_calls(case, case["seed"], 2, split=True)
    other, _, _ = ordinary_calls(case, case["seed"] + 1, 1)
    b, m = case["b"], case["m"]
    total = 0
    for k, o in enumerate(res):
        want = b * m if "components" in name else (1 if "var_priorities" in name and k else b)
        require(len(o) == want, lambda: f"{name} returns {len(o)} points instead of {want}", "number of points")
        inside(o["x"], lb, ub, name)
        same(o, twin[k], name)
        if "resource_sets" in o.dtype.names:
            r = o["resource_sets"]
            hi = 1 if "var_priorities" in name and k == 0 else case["max"]
            require(bool(np.all((r >= 1) & (r <= hi))), lambda: f"{name} asks for {r} resource sets, at most {hi} allowed", "resource sets")
            if len(r) >= 100:
                require(set(r.tolist()) == set(range(1, hi + 1)) or hi > 3, lambda: f"{name}: of 1..{hi} resource sets only {set(r.tolist())} asked for", "resource sets")
        if "var_priorities" in name:
            want = np.ones(len(o)) if k == 0 else 10 * o["resource_sets"]
            require(bool(np.all(o["priority"] == want)), lambda: f"{name}: priorities {o['priority']} instead of {want}", "priorities")
        if "components" in name:
            x = o["x"].reshape(b, m, -1)
            require(bool(np.all(x == x[:, :1, :])), f"{name}: components of a point have different x", "components")
            require(o["obj_component"].tolist() == list(range(m)) * b, lambda: f"{name}: components {o['obj_component']}", "components")
            require(o["pt_id"].tolist() == [total // m + i for i in range(b) for _ in range(m)], lambda: f"{name}: pt_id {o['pt_id']} after {total} rows", "components")
            require(bool(np.all((o["priority"] >= 0) & (o["priority"] <= 1))), f"{name}: priorities", "priorities")
        if "cancel" in name:
            require(o["cancel_requested"].tolist() == [i % 10 == 0 for i in range(b)], lambda: f"{name}: cancelled {o['cancel_requested']}", "cancelled points")
        if "latin" in name:
            u = np.sort((o["x"] - lb) / (ub - lb) * b, axis=0)
            i = np.arange(b)[:, None]
            eps = 1e-9 * b * (1 + np.max(np.abs(lb) / (ub - lb)))
            require(bool(np.all((u >= i - eps) & (u <= i + 1 + eps))), lambda: f"{name}: not one point per stratum in every dimension: {u.tolist()}", "Latin hypercube strata")
        if "localopt" in name:
            cube = (o["x"] - lb) / (ub - lb)
            require(bool(np.allclose(o["x_on_cube"], cube, atol=1e-9)), lambda: f"{name}: x_on_cube {o['x_on_cube']} of {o['x']}", "scaled point")
            require(not o["local_pt"].any(), f"{name}: samples marked as local points", "scaled point")
        total += len(o)
    step = m if "components" in name else 1
    allx = np.concatenate([o["x"] for o in res])[::step]
    distinct(allx, name)
    require(not np.array_equal(res[0]["x"], other[0]["x"]), f"{name}: other streams give the same points", "stream ignored")
    if "latin" in name and b >= 64 and len(lb) > 1:
        r = np.argsort(np.argsort(res[0]["x"], axis=0), axis=0)
        require(not np.array_equal(r[:, 0], r[:, 1]), f"{name}: the dimensions are permuted alike", "Latin hypercube strata")
    rec.label(name)
    rec.nontrivial(case["calls"] > 1 or (len(lb) > 1 and b > 3), interest=case["calls"] * 10 + b)


# ------------------------------------------------------------------ persistent generators


def script_comm(replies, answer, sent):
    """A communicator whose manager answers every batch as the script says."""
    from libensemble.comms.comms import QComm
    from libensemble.message_numbers import EVAL_GEN_TAG, PERSIS_STOP, STOP_TAG

    inbox = queue.Queue()
    todo = list(replies)

    class ScriptComm(QComm):
        def send(self, *args):
            tag, d = args[0], args[1]
            d = dict(d, calc_out=copy.deepcopy(d["calc_out"]))
            sent.append(d)
            require(tag == EVAL_GEN_TAG and "comm" not in d["libE_info"], f"message with tag {tag}", "message sent")
            if d["libE_info"].get("keep_state"):
                return
            r = todo.pop(0) if todo else {"n": 0, "stop": "persis", "data": False}
            if r.get("stop") and not r.get("data"):
                from libensemble.message_numbers import MAN_SIGNAL_FINISH

                inbox.put((PERSIS_STOP if r["stop"] == "persis" else STOP_TAG, MAN_SIGNAL_FINISH))
                return
            rows = answer(r, d["calc_out"])
            w = {"libE_info": {"H_rows": np.arange(len(rows)), "persistent": True}, "persis_info": {}, "tag": EVAL_GEN_TAG}
            inbox.put((PERSIS_STOP if r.get("stop") else EVAL_GEN_TAG, w))
            inbox.put((0, rows))

        def recv(self, timeout=None):
            if self.recv_buffer is None and inbox.empty():
                raise Violation("the generator waits for a message, but nothing is to come", "generator waits")
            return super().recv(timeout)

    return ScriptComm(inbox, queue.Queue())


PERSIS = {
    "persistent_uniform": P,
    "persistent_uniform_final_update": P,
    "persistent_request_shutdown": P,
    "uniform_nonblocking": P,
    "batched_history_matching": P,
    "persistent_uniform_with_cancellations": P,
    "uniform_sample": V,
    "uniform_sample_with_var_gpus": V,
    "uniform_sample_with_procs_gpus": V,
    "uniform_sample_with_var_priorities": V,
    "uniform_sample_diff_simulations": V,
}


def persis_strategy():
    return st.fixed_dictionaries(
        {
            "gen": st.sampled_from(sorted(PERSIS)),
            "box": box(),
            "b": st.one_of(st.integers(1, 10), st.sampled_from([1, 64, 100])),
            "n": st.lists(st.integers(1, 9), max_size=6),
            "stop": st.sampled_from(["persis", "stop", "data"]),
            "last": st.integers(1, 5),
            "max": st.integers(1, 6),
            "m": st.integers(1, 4),
            "comp": st.booleans(),
            "f": st.lists(st.integers(-50, 50), min_size=1, max_size=9),
            "seed": st.integers(0, 1000),
        }
    )


def persis_dtype(name, n, comp):
    out = [("x", float, (n,))]
    if name == "persistent_uniform" and comp:
        out.append(("obj_component", int))
    if name == "persistent_uniform_final_update":
        out = [("sim_id", int), ("corner_id", int)] + out
    if name in ("uniform_sample", "uniform_sample_with_var_priorities"):
        out.append(("resource_sets", int))
    if name == "uniform_sample_with_var_priorities":
        out.append(("priority", float))
    if "gpus" in name or "diff" in name:
        out.append(("num_gpus", int))
    if "procs" in name or "diff" in name:
        out.append(("num_procs", int))
    if "diff" in name and comp:
        out.append(("app_type", "S10"))
    return out


def persis_once(case, seed, glob):
    name = case["gen"]
    lb, ub = bounds(case)
    n = len(lb)
    sent, given = [], []
    pts = []

    def answer(r, batch):
        """Rows given back: the points sent so far that were not given back yet, or as many as the script says."""
        if name == "batched_history_matching":
            rows = batch
        else:
            rows = np.concatenate(pts + [batch])[-r["n"]:] if r["n"] <= sum(map(len, pts)) + len(batch) else np.concatenate(pts + [batch])
        pts.append(batch)
        out = np.zeros(len(rows), dtype=[("sim_id", int), ("f", float)] + [d for d in rows.dtype.descr if d[0] not in ("sim_id",)])
        for k in rows.dtype.names:
            out[k] = rows[k]
        for i in range(len(out)):
            out["f"][i] = case["f"][(i + len(given)) % len(case["f"])] + (i / 1000 if name == "batched_history_matching" else 0)
        given.append(out)
        return out

    rep = [{"n": k} for k in case["n"]]
    rep.append({"n": case["last"], "stop": "persis" if case["stop"] != "stop" else "stop", "data": case["stop"] == "data"})
    comm = script_comm(rep, answer, sent)
    user = {
        "lb": lb, "ub": ub, "initial_batch_size": case["b"], "max_resource_sets": case["max"], "max_gpus": case["max"],
        "max_procs": case["max"], "num_components": case["m"], "shutdown_limit": case["max"] * 4, "num_best_vals": max(2, case["b"] // 2),
    }
    if name == "batched_history_matching":
        user["initial_batch_size"] = max(case["b"], 2 * n + 2)
        user["num_best_vals"] = n + 2
    spec = {"user": user, "out": persis_dtype(name, n, case["comp"])}
    pi = {"rand_stream": np.random.default_rng(seed), "worker_num": 1}
    info = {"comm": comm, "executor": None, "persistent": True, "H_rows": [], "workerID": 1}
    np.random.seed(glob)
    ret = func(PERSIS[name], name)(np.zeros(0), pi, spec, info)
    return ret, sent, given, spec, lb, ub


def persistent(case, rec):
    from libensemble.message_numbers import FINISHED_PERSISTENT_GEN_TAG

    name = case["gen"]
    ret, sent, given, spec, lb, ub = persis_once(case, case["seed"], 1)
    ret2, sent2, _, _, _, _ = persis_once(case, case["seed"], 2)
    n = len(lb)
    require(len(ret) == 3 and ret[2] == FINISHED_PERSISTENT_GEN_TAG, lambda: f"{name} returns {ret}", "return value")
    batches = [d["calc_out"] for d in sent if not d["libE_info"].get("keep_state")]
    twins = [d["calc_out"] for d in sent2 if not d["libE_info"].get("keep_state")]
    sizes = [spec["user"]["initial_batch_size"]]
    backs = [len(g) for g in given]
    if name == "batched_history_matching":
        sizes += [sizes[0]] * len(case["n"])
    else:
        sizes += backs[: len(case["n"])]
    if name == "persistent_request_shutdown":
        tot, k = 0, 0
        for k, g in enumerate(backs):
            tot += g
            if tot >= spec["user"]["shutdown_limit"]:
                sizes = sizes[: k + 1]
                break
    require([len(x) for x in batches] == sizes, lambda: f"{name} sends batches of {[len(x) for x in batches]} instead of {sizes} (given back: {backs})", "number of points")
    require(len(batches) == len(twins), f"{name}: number of batches differs on equal streams", "not reproducible")
    for k, (o, t) in enumerate(zip(batches, twins)):
        require(o.dtype == np.dtype(spec["out"]), lambda: f"{name} sends {o.dtype}", "fields of the output")
        same(o, t, name)
        if name != "batched_history_matching":
            inside(o["x"], lb, ub, name)
        names = o.dtype.names
        if "resource_sets" in names:
            hi = 1 if name.endswith("priorities") and k == 0 else case["max"]
            require(bool(np.all((o["resource_sets"] >= 1) & (o["resource_sets"] <= hi))), lambda: f"{name}: {o['resource_sets']} of {hi}", "resource sets")
        if "priority" in names:
            want = np.ones(len(o)) if k == 0 else 10 * o["resource_sets"]
            require(bool(np.all(o["priority"] == want)), lambda: f"{name}: priorities {o['priority']} instead of {want}", "priorities")
        if "num_procs" in names:
            require(bool(np.all((o["num_procs"] >= 1) & (o["num_procs"] <= case["max"]))), lambda: f"{name}: {o['num_procs']} processes of {case['max']}", "processes")
            g = o["num_gpus"]
            ok = (g == o["num_procs"]) | ((g == 0) & ("diff" in name))
            require(bool(np.all(ok)), lambda: f"{name}: {g} GPUs for {o['num_procs']} processes", "GPUs")
            if "app_type" in names:
                require(bool(np.all((o["app_type"] == b"gpu_app") == (g > 0)) and set(o["app_type"].tolist()) <= {b"gpu_app", b"cpu_app"}), lambda: f"{name}: {o}", "application")
        if name == "uniform_sample_with_var_gpus":
            q = (o["x"][:, 0] - lb[0]) / (ub[0] - lb[0]) * case["max"]
            g = o["num_gpus"]
            require(bool(np.all((g >= 1) & (g <= case["max"]) & (g - 1 <= q + 1e-6) & (g >= q - 1e-6))), lambda: f"{name}: {g} GPUs for x at {q} of {case['max']}", "GPUs")
        if "obj_component" in names:
            require(bool(np.all((o["obj_component"] >= 0) & (o["obj_component"] < case["m"]))), lambda: f"{name}: component {o['obj_component']} of {case['m']}", "components")
    if name == "persistent_uniform_final_update":
        final_update(ret, batches, given, lb, ub)
    else:
        allx = np.concatenate([o["x"] for o in batches])
        distinct(allx, name)
        require(ret[0] is None or len(ret[0]) == 0, lambda: f"{name} returns data {ret[0]}", "return value")
    if name == "batched_history_matching":
        rng = np.random.default_rng(case["seed"])
        mu, sig = np.zeros(n), np.eye(n)
        for k, o in enumerate(batches):
            want = rng.multivariate_normal(mu, sig, sizes[0])
            require(bool(np.allclose(o["x"], want, rtol=1e-6, atol=1e-6)), lambda: f"{name}: batch {k} is not drawn around the best points of the batch before", "history matching")
            if k < len(given):
                best = sorted(range(sizes[0]), key=lambda i: (given[k]["f"][i], i))[: spec["user"]["num_best_vals"]]
                xs = o["x"][best]
                mu, sig = xs.mean(axis=0), np.atleast_2d(np.cov(xs.T))
    if name == "persistent_uniform_with_cancellations":
        c = spec["user"]["initial_batch_size"] // 2
        got = [d["calc_out"] for d in sent if d["libE_info"].get("keep_state")]
        for g, k in zip(got, backs):
            require(g["sim_id"].tolist() == list(range(c, c + k)) and bool(np.all(g["cancel_requested"])), lambda: f"{name}: cancels {g} after {k} were given back", "cancelled points")
            c += k
        require(len(got) == len(backs), f"{name}: {len(got)} requests to cancel for {len(backs)} batches given back", "cancelled points")
    if name == "persistent_uniform" and sum(sizes) >= 64 and "obj_component" in batches[0].dtype.names:
        seen = {int(c) for o in batches for c in o["obj_component"]}
        require(seen == set(range(case["m"])), lambda: f"{name}: only components {seen} of {case['m']}", "components")
    rec.label(name)
    rec.label("ends by " + case["stop"])
    rec.nontrivial(len(batches) > 1, interest=len(batches) * 10 + n)


def final_update(ret, batches, given, lb, ub):
    name = "persistent_uniform_final_update"
    n = len(lb)
    sid = 0
    cid = []
    for o in batches:
        require(o["sim_id"].tolist() == list(range(sid, sid + len(o))), lambda: f"{name}: sim_ids {o['sim_id']} after {sid} points", "sim_ids")
        sid += len(o)
        for r in o:
            x = [ub[i] if r["x"][i] == ub[i] else lb[i] for i in range(n)]
            require(list(r["x"]) == x, lambda: f"{name}: {r['x']} is no corner", "corner")
        cid += o["corner_id"].tolist()
    allx = np.concatenate([o["x"] for o in batches])
    pairs = {(c, tuple(x)) for c, x in zip(cid, allx)}
    require(len({c for c, _ in pairs}) == len(pairs) == len({x for _, x in pairs}), lambda: f"{name}: corners and their numbers do not match: {pairs}", "corner")
    vals = {}
    for g in given:
        for r in g:
            vals.setdefault(int(r["corner_id"]), []).append(float(r["f"]))
    out = ret[0]
    require(out["sim_id"].tolist() == list(range(sid)) and out["corner_id"].tolist() == cid, lambda: f"{name}: final rows {out}", "final update")
    for r in out:
        v = vals.get(int(r["corner_id"]))
        ok = np.isnan(r["f_est"]) if v is None else abs(r["f_est"] - np.mean(v)) < 1e-6 * (1 + abs(np.mean(v)))
        require(bool(ok), lambda: f"{name}: estimate {r['f_est']} for corner {r['corner_id']} with values {v}", "final update")
    if sid >= 64 and n == 1:
        require(len(pairs) == 2, f"{name}: {sid} points at one corner of two", "corner")


# ------------------------------------------------------------------ classes and random streams


def class_strategy():
    return st.fixed_dictionaries(
        {
            "cls": st.sampled_from(["UniformSample", "ext", "extarray", "streams"]),
            "box": box(),
            "asks": st.lists(st.integers(1, 12), min_size=1, max_size=4),
            "seed": st.integers(0, 1000),
            "np": st.booleans(),
            "pre": st.lists(st.integers(0, 5), max_size=3),
            "seedkind": st.sampled_from(["", "", "int", "none"]),
        }
    )


def classes(case, rec):
    lb, ub = bounds(case)
    n = len(lb)
    if case["cls"] == "streams":
        streams(case, rec)
        return
    from gest_api.vocs import VOCS

    ext = case["cls"] != "UniformSample"
    if case["cls"] == "extarray":
        from gest_api.vocs import ContinuousVariable  # noqa: F401
        from libensemble.gen_classes.external.sampling import UniformSampleArray as C

        class Var:
            domain = [[float(a), float(b)] for a, b in zip(lb, ub)]

        class Vocs:
            variables = {"x": Var}
            variable_names = ["x"]

        try:
            vocs = VOCS(variables={"x": Var.domain}, objectives={"f": "MINIMIZE"})
            if np.ndim(vocs.variables["x"].domain) != 2:
                vocs = Vocs
        except Exception:
            vocs = Vocs
    else:
        if ext:
            from libensemble.gen_classes.external.sampling import UniformSample as C
        else:
            from libensemble.gen_classes.sampling import UniformSample as C
        vocs = VOCS(variables={f"v{i}": [float(a), float(b)] for i, (a, b) in enumerate(zip(lb, ub))}, objectives={"f": "MINIMIZE"})

    def make(seed, glob):
        np.random.seed(glob)
        return C(vocs) if ext else C(vocs, random_seed=seed)

    def ask(g, k):
        if not ext and case["np"]:
            o = g.suggest_numpy(k)
            x = np.array([list(np.atleast_1d(r["x"])) for r in o]) if "x" in o.dtype.names else np.array([[r[f"v{i}"] for i in range(n)] for r in o])
            return x
        o = g.suggest(k)
        require(len(o) == k and all(isinstance(r, dict) for r in o), lambda: f"suggest({k}) gives {o}", "number of points")
        if case["cls"] == "extarray":
            return np.array([r["x"] for r in o])
        for r in o:
            require(set(r) >= {f"v{i}" for i in range(n)}, lambda: f"suggest gives {r}", "fields of the output")
        return np.array([[float(r[f"v{i}"]) for i in range(n)] for r in o])

    g, t, w = make(case["seed"], 1), make(case["seed"], 2), make(case["seed"] + 1, 1)
    xs = []
    for k in case["asks"]:
        x = ask(g, k)
        require(x.shape == (k, n), lambda: f"{x.shape} instead of {(k, n)}", "number of points")
        inside(x, lb, ub, case["cls"])
        xs.append(x)
        g.ingest([{f"v{i}": v for i, v in enumerate(r)} | {"f": 0.0} for r in x]) if case["cls"] == "ext" else None
    allx = np.concatenate(xs)
    distinct(allx, case["cls"])
    require(np.array_equal(allx, ask(t, len(allx))), lambda: f"{case['cls']}: equal seeds give other points if asked in other portions", "not reproducible")
    if not ext:
        require(not np.array_equal(allx[:1], ask(w, 1)), "other seeds give the same points", "stream ignored")
    rec.label(case["cls"])
    rec.nontrivial(len(xs) > 1, interest=len(allx))


def streams(case, rec):
    from libensemble.tools import add_unique_random_streams

    k = 1 + sum(case["asks"]) % 7
    pre = {i: {"keep": i} for i in case["pre"]}
    if case["seedkind"] == "":
        a, b = add_unique_random_streams(copy.deepcopy(pre), k), add_unique_random_streams(copy.deepcopy(pre), k)
    else:
        s = case["seed"] if case["seedkind"] == "int" else None
        a, b = add_unique_random_streams(copy.deepcopy(pre), k, seed=s), add_unique_random_streams(copy.deepcopy(pre), k, seed=s)
    require(set(a) == set(range(k)) | set(pre), lambda: f"entries {set(a)}", "entries")
    xa = {i: tuple(a[i]["rand_stream"].uniform(size=3)) for i in range(k)}
    xb = {i: tuple(b[i]["rand_stream"].uniform(size=3)) for i in range(k)}
    for i in range(k):
        require(a[i]["worker_num"] == i, lambda: f"entry {i}: {a[i]}", "entries")
    for i in pre:
        require(a[i].get("keep") == i, lambda: f"entry {i} lost what it had", "entries")
    if case["seedkind"] == "":
        require(len(set(xa.values())) == k and xa == xb, lambda: f"streams of {k} workers: {xa} {xb}", "streams")
    elif case["seedkind"] == "int":
        require(len(set(xa.values())) == 1 and xa == xb, lambda: f"streams with one seed: {xa} {xb}", "streams")
    else:
        require(len(set(xa.values()) | set(xb.values())) == 2 * k, lambda: "streams without a seed are equal", "streams")
    rec.label("streams")
    rec.nontrivial(k > 1)


# ------------------------------------------------------------------ stencil

OCTAVE = """#!/bin/sh
# stand-in: the answers for a list F=[v ...] lie in a file named by its values
for a in "$@"; do last="$a"; done
f="${last#F=[}"
f="${f%%]*}"
echo "$f" >> calls
k="${f%% *}"
cp "ans_$k" inform.out
cp fno fnoise.out
"""


def stencil_strategy():
    return st.integers(1, 3).flatmap(
        lambda n: st.integers(1, 3).flatmap(
            lambda p: st.fixed_dictionaries(
                {
                    "x0": st.lists(st.sampled_from([-2.0, 0.0, 0.5, 1.23, 40.0]), min_size=n, max_size=n),
                    "p": st.just(p),
                    "nf": st.sampled_from([2, 4, 6]),
                    "h": st.lists(st.sampled_from([1e-10, 1e-6, 1e-3, 0.1]), min_size=n * p, max_size=n * p),
                    "inf": st.lists(st.sampled_from([1, 1, 2, 3, 4]), min_size=1, max_size=8),
                    "maxit": st.integers(1, 3),
                    "stop": st.integers(1, 5),
                }
            )
        )
    )


def stencil(case, rec):
    x0 = np.array(case["x0"])
    n, p, nf = len(x0), case["p"], case["nf"]
    h = np.array(case["h"]).reshape(n, p)
    tmp = tempfile.mkdtemp(prefix="v27_")
    old, path = os.getcwd(), os.environ["PATH"]
    sent = []
    state = {"k": 0}
    want_calls = []
    hh = h.copy()
    iters = np.ones((n, p), int)
    inf_of = np.zeros((n, p), int)
    todo = [(i, j) for i in range(n) for j in range(p)]
    expect = []  # batches expected
    done = False

    def batch(pairs):
        return sorted((i, j, k, tuple(x0 + (k - nf / 2) * hh[i, j] * np.eye(n)[i])) for i, j in pairs for k in range(nf + 1) if k != nf // 2)

    def rows(o):
        return sorted((int(r["x_ind"]), int(r["f_ind"]), int(r["n_ind"]), tuple(float(v) for v in r["x"])) for r in o)

    def close(a, b):
        return len(a) == len(b) and all(r[:3] == s[:3] and np.allclose(r[3], s[3], rtol=1e-12, atol=1e-300) for r, s in zip(a, b))

    def answer(r, o):
        nonlocal todo, done
        want = batch(todo)
        expect.append(want)
        require(close(rows(o), want), lambda: f"batch {len(expect)}: {rows(o)} instead of the stencil {want} of {todo} (n={n}, p={p})", "stencil")
        out = np.zeros(len(o), dtype=o.dtype.descr + [("f_val", float)])
        for f in o.dtype.names:
            out[f] = o[f]
        # values that tell pair, position and round
        state["k"] += 1
        for q in out:
            q["f_val"] = 100000 * state["k"] + 10000 * q["x_ind"] + 1000 * q["f_ind"] + q["n_ind"]
        new = []
        for i, j in todo:
            base = 100000 * state["k"] + 10000 * i + 1000 * j
            vals = [base + k if k != nf // 2 else 7 + j for k in range(nf + 1)]
            want_calls.append(vals)
            inf = case["inf"][len(want_calls) % len(case["inf"])]
            with open(os.path.join(tmp, f"ans_{vals[0]:18.18f}"), "w") as f:
                f.write(f"{inf}\n")
            inf_of[i, j] = inf
            if inf >= 2 and iters[i, j] < case["maxit"]:
                iters[i, j] += 1
                new.append((i, j))
                hh[i, j] = hh[i, j] / 100 if inf == 3 else hh[i, j] * 100
        todo = new
        done = not new
        return out[np.argsort((out["n_ind"] * 7 + out["x_ind"]) % 5, kind="stable")]

    rep = [{"n": 0}] * case["stop"]
    from libensemble.gen_funcs.persistent_fd_param_finder import fd_param_finder

    spec = {
        "user": {"x0": x0, "f0": np.arange(7, 7 + p, dtype=float), "nf": nf, "p": p, "n": n, "noise_h_mat": h.copy(), "maxnoiseits": case["maxit"]},
        "out": [("x", float, (n,)), ("n_ind", int), ("f_ind", int), ("x_ind", int)],
    }
    try:
        os.chdir(tmp)
        with open("octave", "w") as f:
            f.write(OCTAVE)
        with open("fno", "w") as f:
            f.write("0.125\n")
        os.chmod("octave", stat.S_IRWXU)
        os.environ["PATH"] = tmp + os.pathsep + path
        comm = script_comm(rep, answer, sent)
        ret = fd_param_finder(np.zeros(0), {}, spec, {"comm": comm, "executor": None, "H_rows": [], "persistent": True})
        calls = []
        if os.path.exists("calls"):
            with open("calls") as f:
                calls = [[float(v) for v in line.split()] for line in f]
    finally:
        os.chdir(old)
        os.environ["PATH"] = path
        shutil.rmtree(tmp, ignore_errors=True)
    require(sorted(calls) == sorted([float(v) for v in c] for c in want_calls), lambda: f"values analysed: {calls} instead of {want_calls}", "values analysed")
    k = len(sent)
    require(k == len(expect) + (0 if done else 1), lambda: f"{k} batches sent, {len(expect)} answered, finished: {done}", "number of batches")
    if not done:
        require(close(rows(sent[-1]["calc_out"]), batch(todo)), lambda: f"last batch {rows(sent[-1]['calc_out'])} instead of {batch(todo)}", "stencil")
    fn = ret[1]["Fnoise"]
    require(bool(np.all((fn == 0.125) == (inf_of == 1))), lambda: f"noise levels {fn} for answers {inf_of}", "noise levels")
    rec.label(f"n={n}")
    rec.nontrivial(k > 1, interest=k)


# ------------------------------------------------------------------ test functions


def fn_strategy():
    num = st.floats(-2.0, 2.0, allow_nan=False).map(lambda v: round(v, 3))
    return st.fixed_dictionaries(
        {
            "fn": st.sampled_from(["camel", "rosen", "chwirut", "borehole", "norm", "periodic", "inverse", "mock", "noisy"]),
            "x": st.lists(st.lists(num, min_size=8, max_size=8), min_size=1, max_size=5),
            "n": st.integers(1, 4),
            "comp": st.integers(0, 213),
            "cut": st.lists(st.integers(1, 3), max_size=4),
        }
    )


def quotient(f, x, j):
    h = 1e-5 * max(1.0, abs(x[j]))
    a, b = np.array(x, float), np.array(x, float)
    a[j] += h
    b[j] -= h
    return (f(a) - f(b)) / (2 * h)


def grad_ok(f, g, x, what):
    q = np.array([quotient(f, x, j) for j in range(len(x))])
    scale = 1 + np.max(np.abs(q)) + abs(f(np.array(x, float)))
    require(bool(np.all(np.abs(q - g) <= 1e-4 * scale)), lambda: f"{what}: gradient {np.asarray(g).tolist()} at {list(x)}, difference quotients {q.tolist()}", "gradient")


def arr(xs, **more):
    H = np.zeros(len(xs), dtype=[("x", float, (len(xs[0]),))] + [(k, v.dtype) for k, v in more.items()])
    H["x"] = xs
    for k, v in more.items():
        H[k] = v
    return H


def first(out):
    return out[0] if isinstance(out, tuple) else out


def functions(case, rec):
    fn, n = case["fn"], case["n"]
    X = case["x"]
    imp = importlib.import_module

    def batch_equals_single(f, H, fields):
        o = f(H)
        require(len(o) == len(H), lambda: f"{fn}: {len(o)} values for {len(H)} points", "batch")
        for i in range(len(H)):
            s = f(H[i : i + 1])
            for k in fields:
                require(np.allclose(o[k][i], s[k][0], rtol=1e-12, atol=0, equal_nan=True), lambda: f"{fn}: {k} of point {i} is {o[k][i]} in a batch of {len(H)}, {s[k][0]} alone", "batch")
        return o

    if fn == "camel":
        m = imp("libensemble.sim_funcs.six_hump_camel")
        H = arr([x[:2] for x in X])
        spec = {"out": [("f", float), ("grad", float, 2)], "user": {}}
        o = batch_equals_single(lambda h: first(m.six_hump_camel(h, {}, spec, {})), H, ["f", "grad"])
        F = lambda x: float(first(m.six_hump_camel(arr([x]), {}, {"out": [("f", float)], "user": {}}, {}))["f"][0])
        for r, x in zip(o, H["x"]):
            u, v = x
            true = (4 - 2.1 * u**2 + u**4 / 3) * u**2 + u * v + (-4 + 4 * v**2) * v**2
            require(abs(r["f"] - true) <= 1e-9 * (1 + abs(true)), lambda: f"{fn}: {r['f']} at {x} instead of {true}", "value")
            grad_ok(F, r["grad"], x, fn)
            s = m.six_hump_camel_simple(arr([x]), {}, {"out": [("f", float)], "user": {}})
            require(abs(first(s)["f"][0] - true) <= 1e-9 * (1 + abs(true)), lambda: f"{fn}: simple variant gives {s}", "value")
        persistent_camel(case, m, H, o)
    elif fn == "rosen":
        m = imp("libensemble.sim_funcs.rosenbrock")
        H = arr([x[: 2 * n] for x in X])
        spec = {"out": [("f", float), ("grad", float, (2 * n,))]}
        pi = {"get_grad": True, "params": {"const": 1.0}}
        o = batch_equals_single(lambda h: first(m.rosenbrock_eval(h, pi, spec, {})), H, ["f", "grad"])
        F = lambda x: float(first(m.rosenbrock_eval(arr([x]), {}, {"out": [("f", float)]}, {}))["f"][0])
        comp = {"out": [("f_i", float), ("gradf_i", float, (2 * n,))]}
        for r, x in zip(o, H["x"]):
            grad_ok(F, r["grad"], x, fn)
            c = first(m.rosenbrock_eval(arr([x] * n, obj_component=np.arange(n)), pi, comp, {}))
            require(abs(c["f_i"].sum() - r["f"]) <= 1e-9 * (1 + abs(r["f"])) and np.allclose(c["gradf_i"].sum(axis=0), r["grad"], rtol=1e-9, atol=1e-9), lambda: f"{fn}: components {c} do not add up to {r}", "components")
            for i in range(n):
                G = lambda y: float(first(m.rosenbrock_eval(arr([y], obj_component=np.array([i])), {}, {"out": [("f_i", float)]}, {}))["f_i"][0])
                grad_ok(G, c["gradf_i"][i], x, fn + " component")
        half = first(m.rosenbrock_eval(H, {"get_grad": True, "params": {"const": 2.0}}, spec, {}))
        require(np.allclose(2 * half["grad"], o["grad"]), f"{fn}: const does not scale the gradient", "gradient")
    elif fn == "chwirut":
        m = imp("libensemble.sim_funcs.chwirut1")
        H = arr([[abs(x[0]) / 4 + 0.01, abs(x[1]) / 50 + 0.002, abs(x[2]) / 50 + 0.002] for x in X])
        spec = {"out": [("f", float), ("fvec", float, 214)], "user": {}}
        o = batch_equals_single(lambda h: first(m.chwirut_eval(h, {}, spec)), H, ["f", "fvec"])
        c = case["comp"]
        for r, x in zip(o, H["x"]):
            require(abs(r["f"] - np.sum(r["fvec"] ** 2)) <= 1e-9 * (1 + abs(r["f"])), f"{fn}: f is not the sum of squares", "components")
            s = first(m.chwirut_eval(arr([x], obj_component=np.array([c])), {}, {"out": [("f_i", float)], "user": {}}))
            require(np.isclose(s["f_i"][0], r["fvec"][c], rtol=1e-12), lambda: f"{fn}: component {c} is {s} alone, {r['fvec'][c]} of all", "components")
            J = m.EvaluateJacobian(x)
            F = lambda y: float(m.EvaluateFunction(y, c))
            q = np.array([(F(x + e) - F(x - e)) / (2 * 1e-6 * x[j]) for j, e in enumerate(np.diag(1e-6 * x))])
            require(np.allclose(J[c], q, rtol=1e-3, atol=1e-4 * (1 + np.max(np.abs(q)))), lambda: f"{fn}: Jacobian row {c} is {J[c]}, difference quotients {q}", "gradient")
        S_ = {"out": [("f", float), ("fvec", float, 214)], "user": {"combine_component_func": lambda v: v[c]}}
        require(np.allclose(first(m.chwirut_eval(H, {}, S_))["f"], o["fvec"][:, c]), f"{fn}: own combination", "components")
    elif fn == "borehole":
        m = imp("libensemble.sim_funcs.borehole")
        lo, hi = m.bounds[:, 0], np.where(np.isinf(m.bounds[:, 1]), 5000.0, m.bounds[:, 1])
        lo = np.where(lo == 0, 100.0, lo)
        H = arr([list(lo + (np.array(x) / 4 + 0.5) * (hi - lo)) for x in X])
        o = batch_equals_single(lambda h: first(m.borehole(h, {}, {"out": [("f", float)]}, {})), H, ["f"])
        for r, x in zip(o, H["x"]):
            Tu, Tl, Hu, Hl, rr, rw, Kw, L = x
            lg = np.log(rr / rw)
            true = 2 * np.pi * Tu * (Hu - Hl) / (lg * (1 + 2 * L * Tu / (lg * rw**2 * Kw) + Tu / Tl))
            require(abs(r["f"] - true) <= 1e-9 * (1 + abs(true)), lambda: f"{fn}: {r['f']} at {x.tolist()} instead of {true}", "value")
            require(abs(float(m.borehole_func(x)) - true) <= 1e-9 * (1 + abs(true)), f"{fn}: one point", "value")
    elif fn == "norm":
        m = imp("libensemble.sim_funcs.simple_sim")
        for x in X:
            o = first(m.norm_eval(arr([x[:n]]), {}, {"out": [("f", float)]}, {}))
            require(abs(o["f"][0] - np.sqrt(np.sum(np.square(x[:n])))) < 1e-9, lambda: f"norm of {x[:n]}: {o}", "value")
    elif fn == "periodic":
        m = imp("libensemble.sim_funcs.periodic_func")
        H = arr([x[:2] for x in X])
        o = batch_equals_single(lambda h: first(m.func_wrapper(h, {}, {"out": [("f", float)]}, {})), H, ["f"])
        require(np.allclose(o["f"], np.sin(H["x"][:, 0]) * np.cos(H["x"][:, 1])), fn, "value")
    elif fn == "inverse":
        m = imp("libensemble.sim_funcs.inverse_bayes")
        H = arr([x[:2] for x in X])
        batch_equals_single(lambda h: first(m.likelihood_calculator(h, {}, {"out": [("like", float)]}, {})), H, ["like"])
    elif fn == "noisy":
        m = imp("libensemble.sim_funcs.noisy_vector_mapping")
        H = arr([x[:2] for x in X], f_ind=np.array([(case["comp"] + i) % 3 for i in range(len(X))]))
        o = batch_equals_single(lambda h: first(m.func_wrapper(h, {}, {"out": [("f_val", float)]}, {})), H, ["f_val"])
        for r, h in zip(o, H):
            require(np.isclose(r["f_val"], m.noisy_function(h["x"])[h["f_ind"]]), fn, "value")
    else:
        m = imp("libensemble.sim_funcs.mock_sim")
        tmp = tempfile.mkdtemp(prefix="v27_")
        try:
            H = np.zeros(len(X), dtype=[("x", float, (8,)), ("f", float), ("s", "S4")])
            H["x"], H["f"], H["s"] = X, np.arange(len(X)), [b"%d" % i for i in range(len(X))]
            np.save(os.path.join(tmp, "h.npy"), H)
            for i in range(len(X)):
                out = [("f", float), ("s", "S4"), ("x", float, (8,))][: 1 + n % 3]
                o = first(m.mock_sim(np.zeros(1), {}, {"out": out, "user": {"history_file": os.path.join(tmp, "h.npy")}}, {"H_rows": np.array([i])}))
                for k in o.dtype.names:
                    require(np.array_equal(o[k][0], H[k][i]), lambda: f"{fn}: row {i}: {o}", "value")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    rec.label(fn)
    rec.nontrivial(len(X) > 1, interest=len(X))


def persistent_camel(case, m, H, o):
    """The persistent simulator gives the values of the ordinary one for every order it gets."""
    from libensemble.comms.comms import QComm
    from libensemble.message_numbers import EVAL_SIM_TAG, FINISHED_PERSISTENT_SIM_TAG, MAN_SIGNAL_FINISH, PERSIS_STOP

    inbox, outbox = queue.Queue(), queue.Queue()
    comm = QComm(inbox, outbox)
    cuts, at = [], 0
    for k in case["cut"] + [len(H)]:
        if at < len(H):
            cuts.append((at, min(len(H), at + k)))
            at += k
    start = cuts[0] if len(case["cut"]) % 2 == 0 else None
    todo = cuts[1:] if start else cuts
    for a, b in todo:
        inbox.put((EVAL_SIM_TAG, {"libE_info": {"H_rows": np.arange(a, b), "comm": comm, "executor": None}, "persis_info": {}}))
        inbox.put((0, H[a:b]))
    inbox.put((PERSIS_STOP, MAN_SIGNAL_FINISH))
    spec = {"out": [("f", float), ("grad", float, 2)], "user": {}}
    info = {"comm": comm, "executor": None, "persistent": True, "H_rows": np.arange(*start) if start else []}
    ret = m.persistent_six_hump_camel(H[slice(*start)] if start else H[:0], {}, spec, info)
    require(ret[2] == FINISHED_PERSISTENT_SIM_TAG and ret[0] is None, lambda: f"persistent simulator returns {ret}", "return value")
    got = []
    while not outbox.empty():
        got.append(outbox.get()[1]["calc_out"])
    require(len(got) == len(cuts), lambda: f"{len(got)} answers to {len(cuts)} orders", "persistent simulator")
    for g, (a, b) in zip(got, cuts):
        require(g.tobytes() == o[a:b].tobytes(), lambda: f"persistent simulator gives {g} for points {a}..{b - 1}, the ordinary one {o[a:b]}", "persistent simulator")


TARGETS = [
    Target("ordinary", ordinary_strategy, quiet(ordinary), 2400, 80000),
    Target("persistent", persis_strategy, quiet(persistent), 3200, 80000),
    Target("classes", class_strategy, classes, 1200, 30000),
    Target("stencil", stencil_strategy, stencil, 320, 8000),
    Target("functions", fn_strategy, functions, 1600, 40000),
]
