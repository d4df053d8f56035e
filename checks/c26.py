"""C26: persis_info travels faithfully between manager and user functions."""
import copy
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, real, work
from vlib.core import Inconclusive, Target, Violation, require
from vlib.judge import clean_run, workload_labels
from vlib.model import Ref

TECHNIQUE = "property-based testing: whole runs whose user functions edit their persis_info entry by script, checked against a per-worker model"
RULE = (
    "Whole runs (all supplied allocation functions and generated allocation decisions, persistent and ordinary generators) in "
    "which user functions edit their persis_info entry by script: in place, in a copy, by returning some keys only, an empty "
    "entry or none, with nested values, arrays and random streams, through every return form; the allocation function counts in "
    "its own keys, writes into entries of idle workers, and returns the same dictionary or a new one. A model keeps one entry per "
    "worker: what a call sees, what the allocation function sees for idle workers and for its own keys, and what libE() returns "
    "must be the model's. A second target does it with forked and spawned worker processes, each worker counting its calls. "
    "Non-trivial: some call saw an entry changed by an earlier call of the same worker."
)
ASSUMPTIONS = [
    "an entry returned by a user function is merged into the worker's entry, an empty one or none leaves it as it was",
    "user functions do not delete keys in place and do not change in place an entry they do not also return (threads share it)",
    "supplied allocation functions that hand an empty list to simulations (fast_alloc, only_one_gen, give_pregenerated) are judged on that",
]


def shard_setup():
    ens.quiet_logs()


# ------------------------------------------------------------------ scripted edits

OPS = ("place", "copy", "part", "empty", "none", "keep")


def edit(d, op, k, role):
    d[f"{role}_n"] = d.get(f"{role}_n", 0) + 1
    d["last"] = k
    v = op.get("val")
    if v == "list":
        d.setdefault("hist", []).append(k)
    elif v == "array":
        d["arr"] = np.arange(k % 4 + 1) * 1.5
    elif v == "nested":
        d["nest"] = {"a": {"b": [k, (k, "s")]}, "k": k}
    elif v == "rand":
        r = d.get("rand")
        r = copy.deepcopy(r) if r is not None else np.random.RandomState(k)
        d["rand"] = r
        d["drawn"] = r.uniform()
    elif v == "none":
        d["nothing"] = None
    return d


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, np.random.RandomState) and isinstance(b, np.random.RandomState):
        x, y = a.get_state(), b.get_state()
        return x[0] == y[0] and np.array_equal(x[1], y[1]) and x[2:] == y[2:]
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def instrument(case):
    """Returns a replacement of work.init_run that makes the run's user functions edit persis_info."""
    orig = work.init_run
    ops = case["pi"]

    def init(c, H0=None, **kw):
        run = orig(c, H0, **kw)
        real_wrap = run.wrap
        real_alloc = run.wrap_alloc
        run.pi_left = {}  # call serial -> what the call leaves

        def wrap(role, fn):
            def f(r, k, H, persis_info, specs, libE_info):
                w = libE_info["workerID"]
                s = r.cur[w]
                op = ops[(k * 2 + (role == "gen")) % len(ops)]
                how = op["how"]
                isd = isinstance(persis_info, dict)
                pi = persis_info
                if how == "place" and isd:
                    edit(pi, op, k, role)
                elif how in ("copy", "place"):
                    pi = edit(copy.deepcopy(persis_info) if isd else {}, op, k, role)
                elif how == "part":
                    pi = edit({"hist": list(persis_info.get("hist", []))} if isd else {}, op, k, role)
                elif how == "empty":
                    pi = {}
                elif how == "none":
                    pi = None
                given = copy.deepcopy(persis_info)
                out = fn(r, k, H, pi, specs, libE_info)
                left = out[1] if isinstance(out, tuple) and len(out) > 1 and (isinstance(out[1], (dict, list)) or out[1] is None) else None
                gone = persis_info if how == "place" and isd else given  # in place: visible at the manager too
                r.pi_left[s] = (copy.deepcopy(gone), copy.deepcopy(left), how)
                return out

            return real_wrap(role, f)

        def wrap_alloc(fn):
            n = {"i": 0}

            def a(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info):
                n["i"] += 1
                i = n["i"]
                if case["apre"] and i % case["apre"] == 0:
                    persis_info["alloc_calls"] = i
                    persis_info.setdefault("alloc_hist", []).append(i)
                    if case["awork"]:
                        for w, act, per in zip(W["worker_id"], W["active"], W["persis_state"]):
                            if not act and not per:
                                persis_info.setdefault(int(w), {})["from_alloc"] = i
                out = fn(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info)
                if case["afresh"] and isinstance(out, tuple) and len(out) >= 2 and i % case["afresh"] == 0:
                    out = (out[0], dict(out[1])) + tuple(out[2:])
                run.alloc_left = copy.deepcopy(out[1])
                run.log("pi_alloc", pi=run.alloc_left)
                return out

            return real_alloc(a)

        run.wrap, run.wrap_alloc = wrap, wrap_alloc
        return run

    return orig, init


def with_edits(case, runner):
    orig, init = instrument(case)
    work.init_run = init
    try:
        return runner(case)
    finally:
        work.init_run = orig


def judge(run, case, rec):
    clean_run(run)
    model = None  # set by the first allocation call
    busy = set()
    calls = {}
    changed = set()
    seen_changed = 0
    nowner = {"sim": 0, "gen": 0}
    for e in run.ev:
        d = e.d
        if e.kind == "alloc_in":
            pi = d["persis_info"]
            if model is None:
                model = copy.deepcopy(pi)
            else:
                for key in set(model) | set(pi):
                    if key in busy:
                        continue
                    require(
                        same(model.get(key, {}), pi.get(key, {})),
                        lambda: f"the allocation function is given persis_info[{key!r}] = {pi.get(key)}, expected {model.get(key)}\n{run.tail()}",
                        "persis_info given to the allocation function",
                    )
        elif e.kind == "pi_alloc":
            for key in set(model) | set(d["pi"]):
                if key not in busy and key in d["pi"]:
                    model[key] = copy.deepcopy(d["pi"][key])
        elif e.kind == "msend" and d["tag"] in (ens.SIM, ens.GEN):
            busy.add(d["w"])
        elif e.kind == "call":
            w = d["w"]
            nowner[d["role"]] += 1
            got = d["persis_info"]
            calls[d["serial"]] = w
            if isinstance(got, list) and case.get("alloc") in ("fast", "one", "pregen") and d["role"] == "sim":
                require(got == [], lambda: f"a simulation was given {got}", "entry given to a simulation")
                continue
            want = model.get(w, {})
            require(
                same(got, want),
                lambda: f"the {d['role']} called on worker {w} is given persis_info {got}, its worker's entry is {want}\n{run.tail()}",
                "persis_info given to a call",
            )
            if w in changed:
                seen_changed += 1
        elif e.kind == "mget":
            s = d["serial"]
            w = d["w"]
            if s in run.pi_left:
                place, left, how = run.pi_left[s]
                if isinstance(place, dict) and (place or w in model):
                    model[w] = copy.deepcopy(place)
                if left:
                    model.setdefault(w, {}).update(copy.deepcopy(left))
                busy.discard(w)
                changed.add(w)
        elif e.kind == "exc":
            return
    fin = run.persis_info
    if model is not None:
        for key in set(model) | set(fin):
            if key == "num_gens_started":
                continue
            require(
                same(model.get(key, {}), fin.get(key, {})),
                lambda: f"libE() returned persis_info[{key!r}] = {fin.get(key)}, expected {model.get(key)}\n{run.tail()}",
                "persis_info returned by libE()",
            )
    workload_labels(rec, case, EMPTY)
    rec.nontrivial(seen_changed > 0)
    if seen_changed:
        rec.label("entry seen again after a change")
    if case["apre"]:
        rec.label("allocation function writes")


class EMPTY:
    stats = {k: 0 for k in ("unordered", "partial", "updates", "informed")}


def supplied(case, rec):
    judge(with_edits(case, work.run_supplied), case, rec)


def fuzz(case, rec):
    judge(with_edits(case, work.run_fuzz), case, rec)


def edits():
    op = st.fixed_dictionaries({"how": st.sampled_from(OPS + ("place", "copy")),
                                "val": st.sampled_from(["", "list", "array", "nested", "rand", "none"])})
    return st.fixed_dictionaries(
        {"pi": st.lists(op, min_size=1, max_size=6), "apre": st.integers(0, 3), "awork": st.booleans(), "afresh": st.sampled_from([0, 0, 1, 2])}
    )


def plus(s):
    return st.tuples(s, edits()).map(lambda t: dict(t[0], **t[1]))


# ------------------------------------------------------------------ real worker processes


def build(case):
    from libensemble.alloc_funcs.fast_alloc import give_sim_work_first as fast
    from libensemble.alloc_funcs.give_sim_work_first import give_sim_work_first

    def sim_f(H, persis_info, specs, libE_info):
        out = np.zeros(len(H), dtype=[("f", float), ("cnt", int), ("draw", float)])
        form = case["forms"][int(H["i"][0]) % len(case["forms"])]
        if form == "skip":
            out["cnt"], out["draw"] = -1, -1
            return out
        pi = persis_info if form != "copy" else copy.deepcopy(persis_info)
        out["cnt"] = pi["cnt"]
        out["draw"] = pi["rand"].uniform()
        pi["cnt"] += 1
        pi["log"] = pi["log"] + [int(H["i"][0])]
        return out if form == "place" else (out, pi)

    def gen_f(H, persis_info, specs, libE_info):
        k = persis_info.get("gens", 0)
        out = np.zeros(case["batch"], dtype=[("i", int), ("gen_k", int), ("gen_on", int)])
        out["i"] = np.arange(case["batch"]) + 31 * k
        out["gen_k"] = k
        out["gen_on"] = libE_info["workerID"]
        persis_info["gens"] = k + 1
        return out, persis_info

    pi = {w: {"cnt": 0, "rand": np.random.RandomState(w + case["seed"]), "log": [], "own": w} for w in range(0, case["nw"] + 1)}
    pi["other"] = {"a": [1, 2]}
    return (
        {"sim_f": sim_f, "in": ["i"], "out": [("f", float), ("cnt", int), ("draw", float)]},
        {"gen_f": gen_f, "in": [], "out": [("i", int), ("gen_k", int), ("gen_on", int)]},
        {"sim_max": case["n"]}, pi, {"alloc_f": give_sim_work_first, "user": {"num_active_gens": case["active"]}},
        {"disable_log_files": True, "gen_on_manager": case["gom"]}, None,
    )


def processes(case, rec):
    d = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        r = real.run_mode(case["mode"], "checks.c26:build", case, case["nw"], d, timeout=60)
    except real.TimedOut as e:
        raise Violation(f"the run had not ended after 60 s: {e}", "run does not end")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    require(r["exc"] is None, lambda: f"the run failed: {r['exc']}", "run fails")
    H, pi = r["H"], r["persis_info"]
    require(pi.get("other") == {"a": [1, 2]}, lambda: f"persis_info['other'] is {pi.get('other')}", "entry that belongs to no worker")
    total = 0
    for w in range(0, case["nw"] + 1):
        e = pi[w]
        mine = H[H["sim_ended"] & (H["sim_worker"] == w) & (H["cnt"] >= 0)] if w else H[:0]
        mine = np.sort(mine, order=["sim_started_time", "cnt"])
        rs = np.random.RandomState(w + case["seed"])
        want = [rs.uniform() for _ in range(len(mine))]
        require(
            list(mine["cnt"]) == list(range(len(mine))) and list(mine["draw"]) == want,
            lambda: f"calls on worker {w} saw counts {list(mine['cnt'])} and drew {list(mine['draw'])}, expected {want}",
            "entry seen by calls of one worker",
        )
        require(
            e["own"] == w and e["cnt"] == len(mine) and e["log"] == list(mine["i"]) and e["rand"].uniform() == rs.uniform(),
            lambda: f"libE() returned {e} for worker {w}, whose calls were on {list(mine['i'])}",
            "entry of a worker returned",
        )
        ks = sorted(set(H[H["gen_on"] == w]["gen_k"])) if len(H) else []
        require(
            e.get("gens", 0) >= len(ks) and list(ks) == list(range(len(ks))),
            lambda: f"generator calls on worker {w} counted {ks}, entry returned {e}",
            "generator entry",
        )
        total += len(mine)
    rec.label(f"processes {case['mode']}")
    rec.nontrivial(total > case["nw"])


def process_strategy(modes):
    return st.fixed_dictionaries(
        {
            "nw": st.integers(1, 3), "batch": st.integers(1, 5), "n": st.integers(4, 16), "active": st.integers(1, 2),
            "gom": st.booleans(), "seed": st.integers(0, 50), "mode": st.sampled_from(modes),
            "forms": st.lists(st.sampled_from(["place", "copy", "return", "skip"]), min_size=1, max_size=4),
        }
    )


TARGETS = [
    Target("processes", lambda: process_strategy(["local", "local", "threads"]), processes, 240, 3000, shrink_s=40),
    Target("supplied", lambda: plus(work.supplied_strategy(exits=("sim_max", "gen_max", "both"), psim=True)), supplied, 1600, 24000),
    Target("fuzz", lambda: plus(work.fuzz_strategy()), fuzz, 1000, 12000),
]
