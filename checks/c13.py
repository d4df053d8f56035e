"""C13: the supplied allocation functions follow their documented policy and never stall."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, work
from vlib.core import Target, require
from vlib.ens import GEN, SIM
from vlib.judge import clean_run, exit_rules

TECHNIQUE = "property-based testing: every call of the supplied allocation functions in generated runs is compared with a model of the documented policy"
RULE = (
    "Whole runs on a deterministic schedule with all supplied allocation functions except the one that runs local optimisers itself: "
    "generated worker counts, delays, generator-only and zero-resource workers, generators on the manager, resource requests on a small "
    "pool, priorities, cancellations, batch and asynchronous return, initial samples, active receive, several generators, H0, persistent "
    "simulators. For every call the returned Work is judged against the state passed in: kinds of workers, which rows in which order, "
    "nothing left over that could have been given, generators started exactly when allowed, results fed back when due and to their own "
    "generator, and the run must reach its exit criterion. Non-trivial: some call had fewer idle workers than points, or gave two or more "
    "orders, in a run with at least four calls that gave work."
)
ASSUMPTIONS = [
    "the order among points of equal priority is by row",
    "generators ask for a given finite-difference pair again only after they received it",
]


def shard_setup():
    ens.quiet_logs()


class Call:
    """One call of the allocation function: the state it saw and what it returned."""

    def __init__(self, run, case, ein, eout):
        self.run, self.case = run, case
        self.W, self.H, self.info, self.pi = ein.d["W"], ein.d["H"], ein.d["info"], ein.d["persis_info"]
        self.Work, self.flag = eout.d["Work"], eout.d["flag"]
        self.used = ein.d.get("used", 0)
        anyz = any(w["zero_resource_worker"] for w in self.W.values())
        anyg = any(w["gen_worker"] for w in self.W.values())
        self.simw = [i for i, w in self.W.items() if w["active"] == 0 and w["persis_state"] == 0 and not (anyg and w["gen_worker"])]
        self.genw = [i for i, w in self.W.items() if w["active"] == 0 and w["persis_state"] == 0 and (w["gen_worker"] or not anyg)]
        if case["alloc"] == "opg":
            if anyz:
                self.simw = [i for i in self.simw if not self.W[i]["zero_resource_worker"]]
                self.genw = [i for i in self.genw if self.W[i]["zero_resource_worker"]]
            if case["user"].get("alt_type"):
                self.simw += [i for i, w in self.W.items() if w["active"] == 0 and w["persis_state"] == SIM]
        self.simw.sort()
        self.genw.sort()
        self.sims = {w: o for w, o in self.Work.items() if o["tag"] == SIM}
        self.starts = {w: o for w, o in self.Work.items() if o["tag"] == GEN and self.W[w]["persis_state"] == 0}
        self.feeds = {w: o for w, o in self.Work.items() if o["tag"] == GEN and self.W[w]["persis_state"] != 0}
        H = self.H
        self.avail = [int(i) for i in np.flatnonzero(~H["sim_started"] & ~H["cancel_requested"])]
        self.unseen = [int(i) for i in np.flatnonzero(H["sim_ended"] & ~H["gen_informed"])]

    def rows(self, w):
        return [int(r) for r in np.atleast_1d(self.Work[w]["libE_info"]["H_rows"])]

    def ended(self, sel=None):
        """All points (of the selection) that can still come back are back."""
        H = self.H
        out = ~H["sim_ended"] & ~(H["cancel_requested"] & ~H["sim_started"])
        return not np.any(out if sel is None else out & sel)

    def text(self):
        h = self.H
        cols = [c for c in ("sim_started", "sim_ended", "gen_informed", "cancel_requested", "gen_worker", "priority", "resource_sets", "paused") if c in h.dtype.names]
        rows = "\n".join(f"    {i}: " + " ".join(f"{c}={h[c][i]}" for c in cols) for i in range(len(h)))
        work = {w: (o["tag"], self.rows(w), dict(o["libE_info"], H_rows=None)) for w, o in self.Work.items()}
        return f"\n  workers {self.W}\n  history\n{rows}\n  resource sets in use {self.used}\n  Work {work} flag {self.flag}"


def need(c, rows):
    if c.case.get("rsets"):
        return int(max(c.H["resource_sets"][rows])) if "resource_sets" in c.H.dtype.names else 1
    return 0


def order_of(c, batch):
    """The documented hand-out sequence of the available points: list of row lists."""
    left = list(c.avail)
    out = []
    pr = c.H["priority"] if "priority" in c.H.dtype.names and c.case["alloc"] in ("gswf", "opg") else None
    while left:
        if pr is None:
            rows = [left[0]]
        else:
            top = max(pr[r] for r in left)
            same = [r for r in left if pr[r] == top]
            rows = same if batch else same[:1]
        out.append(rows)
        left = [r for r in left if r not in rows]
    return out


def common(c):
    """What holds for every supplied function."""
    t = c.text
    for w, o in c.Work.items():
        require(w in c.W, lambda: f"work for unknown worker {w}{t()}", "unknown worker")
        require(o["tag"] in (SIM, GEN), lambda: f"work of unknown kind for worker {w}{t()}", "unknown kind of work")
        ar = o["tag"] == GEN and c.W[w]["persis_state"] == GEN and c.W[w]["active_recv"]
        require(c.W[w]["active"] == 0 or ar, lambda: f"work for worker {w}, which is not idle{t()}", "work for a busy worker")
    if c.info["sim_max_given"]:
        require(not c.Work, lambda: f"work is given out although sim_max points were given{t()}", "work after sim_max")
    seen = set()
    for w in c.sims:
        rows = c.rows(w)
        require(w in c.simw, lambda: f"a simulation is given to worker {w}, which is not for simulations now{t()}", "simulation for the wrong worker")
        require(rows, lambda: f"a simulation without points for worker {w}{t()}", "simulation without points")
        for r in rows:
            require(r in c.avail, lambda: f"point {r} is given to worker {w}, but it is not available{t()}", "point not available")
            require(r not in seen, lambda: f"point {r} is given out twice in one call{t()}", "point given twice")
            seen.add(r)
    for w in c.starts:
        require(w in c.genw, lambda: f"a generator is started on worker {w}, which is not for generators now{t()}", "generator on the wrong worker")
    for w in c.feeds:
        require(c.W[w]["persis_state"] == GEN, lambda: f"results are fed to worker {w}, which has no persistent generator{t()}", "results to the wrong worker")
    return seen


def handed_out(c, seq, overwritten=()):
    """The points given are the first of the sequence, and all that could be given are given."""
    t = c.text
    given = [c.rows(w) for w in c.sims]
    # an order for a worker that gets a generator in the same call is dropped (it is made again in the next call)
    k = len(given) + len(overwritten)
    if not overwritten:
        require(given == seq[: len(given)], lambda: f"points are given in the order {given}, documented: {seq[:k]}{t()}", "order of the points")
    free = c.case["rsets"] - c.used if c.case.get("rsets") else None
    if free is not None:
        free -= sum(need(c, r) for r in given)
        require(free >= 0, lambda: f"more resource sets given out than there are{t()}", "too many resource sets")
    left = [r for r in seq if r not in given]
    idle = [w for w in c.simw if w not in c.Work]
    if left and idle and not overwritten and not c.info["sim_max_given"] and c.flag == 0:
        fits = free is None or need(c, left[0]) <= free
        # (zero-resource workers do not keep others from working: the function tries the same number of times)
        require(not fits, lambda: f"workers {idle} are idle and points {left[0]} could be given, but are not{t()}", "free worker gets nothing")
    return left


def may_start(c, limit, running):
    return limit is None or running < limit


def policy(c):
    a = c.case["alloc"]
    u = c.case["user"]
    t = c.text
    seen = common(c)
    if c.info["sim_max_given"]:
        return seen
    simple = a in ("gswf", "fast", "one", "pregen")
    active_gens = sum(1 for w in c.W.values() if w["active"] == GEN)
    if simple:
        require(not c.feeds, lambda: f"results fed by a function without persistent generators{t()}", "unexpected feed")
        require(not any(o["libE_info"].get("persistent") for o in c.Work.values()), lambda: f"persistent work{t()}", "unexpected persistent work")
    batch = bool(u.get("give_all_with_same_priority")) and a in ("gswf", "opg")
    seq = order_of(c, batch)
    if not simple:
        return opg(c, seq, seen)
    left = handed_out(c, seq)
    idle_gens = [w for w in c.genw if w not in c.Work]
    total = active_gens + len(c.starts)
    limit = u.get("num_active_gens")
    if a == "pregen":
        require(not c.starts, lambda: f"a generator is started{t()}", "generator without gen_f")
        require(c.flag == (1 if not c.avail and c.info["any_idle_workers"] else 0), lambda: f"flag {c.flag} with points {c.avail} left{t()}", "flag")
        return seen
    require(c.flag == 0, lambda: f"flag {c.flag}{t()}", "flag")
    if a == "one":
        limit = 1
    if limit is not None:
        require(total <= limit or not c.starts, lambda: f"{total} generators active, {limit} allowed{t()}", "too many generators")
    may = may_start(c, limit, total)
    if a == "gswf":
        ok = not c.avail and (not u.get("batch_mode") or c.ended())
        why = "points to evaluate left" if c.avail else "results outstanding in batch mode"
    elif a == "fast":
        ok, why = not left, "points to evaluate left"
    else:
        ok = not c.avail and c.ended()
        why = "points not evaluated"
    require(ok or not c.starts, lambda: f"a generator is started with {why}{t()}", "generator started too early")
    if a == "fast" and not [w for w in c.simw if w not in c.Work] and len(c.H) and c.H["cancel_requested"][-1]:
        may = False  # cancelled points at the end are noticed when the next worker is free
    require(not (ok and may and idle_gens and c.info["any_idle_workers"]), lambda: f"no generator is started on {idle_gens} although it may{t()}", "generator not started")
    for w in c.starts:
        want = list(range(len(c.H))) if c.case["gen_in"] else []
        require(c.rows(w) == want, lambda: f"the generator is given rows {c.rows(w)}{t()}", "rows for the generator")
    return seen


def feeding(c, due, persis_in):
    """due: worker -> rows to feed now (empty: must not be fed)."""
    t = c.text
    for w, rows in due.items():
        got = c.rows(w) if w in c.feeds else []
        require(sorted(got) == sorted(rows) and len(set(got)) == len(got), lambda: f"generator on worker {w} is fed {got}, due: {rows}{t()}",
                "results fed too early or wrongly" if not rows else "results due not fed" if not got else "wrong results fed")
        if got:
            require(set(c.Work[w]["H_fields"]) == set(persis_in), lambda: f"fields fed: {c.Work[w]['H_fields']}{t()}", "fields fed")
    for w in c.feeds:
        require(w in due, lambda: f"worker {w} is fed{t()}", "results fed to a busy generator")


def opg(c, seq, seen):
    u = c.case["user"]
    t = c.text
    active_recv = bool(u.get("active_recv_gen"))
    if not c.info["any_idle_workers"]:
        require(not c.Work, lambda: f"work without idle workers{t()}", "work without idle workers")
        return seen
    running = [w for w, x in c.W.items() if x["persis_state"] == GEN]
    if c.gens_before > len(running):
        require(c.flag == 1 and not c.Work, lambda: f"a persistent generator is gone, but the run goes on{t()}", "generator gone")
        return seen
    require(c.flag == 0, lambda: f"flag {c.flag} with {len(running)} of {c.gens_before} generators running{t()}", "flag")
    is_async = u.get("async_return") and int(np.sum(c.H["sim_ended"])) >= u.get("init_sample_size", 0)
    due = {}
    for w in running:
        if (c.W[w]["active"] == 0) if not active_recv else c.W[w]["active_recv"]:
            mine = c.H["gen_worker"] == w
            rows = [r for r in c.unseen if mine[r]]
            due[w] = rows if is_async or c.ended(mine) else []
    feeding(c, due, ["sim_id", "x", "f"])
    # a generator start may take the place of a simulation order made in the same call
    left = handed_out(c, seq, overwritten=c.starts if seq else ())
    limit = u.get("num_active_gens", 1)
    total = len(running) + len(c.starts)
    require(total <= limit or not c.starts, lambda: f"{total} generators running, {limit} allowed{t()}", "too many generators")
    if c.starts and seq:
        # all points must have been given to the free workers of this call
        fit = min(len(seq), len(c.simw))
        require(fit == len(seq), lambda: f"a generator is started with points to evaluate left{t()}", "generator started too early")
    idle_gens = [w for w in c.genw if w not in c.Work]
    require(not (not left and total < limit and idle_gens), lambda: f"no generator is started on {idle_gens} although it may{t()}", "generator not started")
    for w in c.starts:
        require(c.Work[w]["libE_info"].get("persistent"), lambda: f"generator on {w} is not persistent{t()}", "generator not persistent")
        require(bool(c.Work[w]["libE_info"].get("active_recv")) == active_recv, lambda: f"active_recv of worker {w}{t()}", "active_recv")
        require(c.rows(w) == list(range(len(c.H))), lambda: f"the generator is given rows {c.rows(w)}{t()}", "rows for the generator")
    for w in c.sims:
        require(bool(c.Work[w]["libE_info"].get("persistent")) == bool(u.get("alt_type")), lambda: f"simulation persistent{t()}", "simulation persistent")
    return seen


def calls(run, case):
    """All calls, with the number of resource sets in use and of generators started when they were made."""
    out, used, gens = [], {}, 0
    final = {e.d["serial"] for e in run.of("ret")}
    ein = None
    for e in run.ev:
        if e.kind == "alloc_in":
            ein = e
            e.d["used"] = sum(used.values())
        elif e.kind == "alloc_out":
            c = Call(run, case, ein, e)
            c.gens_before = gens
            gens += len(c.starts)
            out.append(c)
        elif e.kind == "msend" and isinstance(e.d["body"], dict) and "libE_info" in e.d["body"] and e.d["tag"] in (SIM, GEN):
            team = e.d["body"]["libE_info"].get("rset_team")
            if team:
                used[e.d["w"]] = len(team)
        elif e.kind == "mget" and e.d["serial"] in final:
            used.pop(e.d["w"], None)
    return out


def covered(cs, rec, case):
    for c in cs:
        if len(c.avail) > len(c.simw) > 0:
            rec.label("fewer workers than points")
        if c.feeds:
            rec.label("results fed")
        if len(c.starts) > 1:
            rec.label("several generators started")
        if c.sims and max(len(c.rows(w)) for w in c.sims) > 1:
            rec.label("several points per order")
        if "cancel_requested" in c.H.dtype.names and np.any(c.H["cancel_requested"] & ~c.H["sim_started"]):
            rec.label("cancelled points")
        if case.get("rsets") and c.avail and c.used + min(need(c, [r]) for r in c.avail) > case["rsets"]:
            rec.label("waiting for resources")
    rec.label("alloc " + case["alloc"])
    busy = [c for c in cs if c.Work]
    rec.nontrivial(len(busy) >= 4 and any(len(c.avail) > len(c.simw) or len(c.Work) >= 2 for c in cs), interest=len(busy))


def with_pool(case, fn):
    spec = {}
    if case.get("gen_workers"):
        spec["gen_workers"] = case["gen_workers"]
    if not case.get("rsets"):
        return fn(spec)
    tmp = tempfile.mkdtemp(prefix="v13_")
    try:
        with open(os.path.join(tmp, "nodes"), "w") as f:
            f.write("node1\n")
        spec.update(
            resource_info={"node_file": os.path.join(tmp, "nodes"), "cores_on_node": (8, 8), "gpus_on_node": 0},
            num_resource_sets=case["rsets"],
            platform_specs={"mpi_runner": "openmpi", "runner_name": "mpirun"},
        )
        if case.get("zero"):
            spec["zero_resource_workers"] = case["zero"]
        return fn(spec)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def supplied(case, rec):
    gen_out = [("resource_sets", int)] if case.get("cols") else []
    run = with_pool(case, lambda spec: work.run_supplied(case, extra_specs=spec, gen_out=gen_out))
    clean_run(run, "a run with a supplied allocation function")
    cs = calls(run, case)
    for c in cs:
        policy(c)
    exit_rules(run, case)
    covered(cs, rec, case)


@st.composite
def strategy(draw):
    c = draw(work.supplied_strategy(maxw=6, exits=("sim_max", "gen_max", "both"), psim=True))
    ids = list(range(1, c["nw"] + 1))
    ng = c["user"].get("num_active_gens") or 1
    kind = draw(st.sampled_from(["", "", "gen_workers", "rsets", "rsets"]))
    persis = c["alloc"] == "opg"
    if kind == "gen_workers" and not c["gom"] and c["alloc"] != "pregen" and len(ids) > ng:
        k = draw(st.integers(ng, len(ids) - 1))
        c["gen_workers"] = sorted(draw(st.permutations(ids))[:k])
    elif kind == "rsets" and c["alloc"] != "pregen":
        c["rsets"] = draw(st.integers(1, 6))
        c["user"].pop("alt_type", None)  # (persistent simulators keep their resources)
        c.pop("psim", None)
        if draw(st.booleans()):
            vals = draw(st.lists(st.integers(1, c["rsets"]), min_size=1, max_size=7))
            for s in c["gens"]:
                for b in s if persis else [s]:
                    b["rsets"] = vals
            c["cols"] = True
            c["H0"] = None
        if persis and not c["gom"] and not c["user"].get("alt_type") and len(ids) > ng and draw(st.booleans()):
            c["zero"] = sorted(draw(st.permutations(ids))[: draw(st.integers(ng, len(ids) - 1))])
    return c


# ------------------------------------------------------------------ the functions made for one kind of generator


def others_strategy():
    return st.fixed_dictionaries(
        {
            "alloc": st.sampled_from(["aposmm", "aposmm", "fd", "fd", "ibayes", "pause", "pause"]),
            "nw": st.integers(2, 6),
            "delays": work.delays,
            "place": st.sampled_from(["", "", "gom", "gen_workers"]),
            "gw": st.integers(0, 5),
            "init": st.integers(1, 7),
            "h0": st.sampled_from([0, 0, 3]),
            "mask": st.integers(0, 2**12),
            "bat": st.lists(st.integers(0, 5), min_size=1, max_size=8),
            "cancel": st.booleans(),
            "dims": st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)),
            "opts": st.fixed_dictionaries({"stop_on_NaNs": st.booleans(), "stop_partial_fvec_eval": st.booleans(), "num": st.sampled_from([None, 1, 2])}),
            "f": st.lists(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0, 5.0, -1.0, None]), min_size=1, max_size=9),
            "sim_max": st.integers(1, 40),
        }
    )


def persis_gen(next_batch, own=None):
    """A persistent generator: next_batch(k, rows received so far, rows received now) gives what it sends, None ends it."""

    def gen(run, k, H, persis_info, specs, libE_info):
        from libensemble.message_numbers import FINISHED_PERSISTENT_GEN_TAG
        from libensemble.tools.persistent_support import PersistentSupport

        ps = ens.RecPS(run, PersistentSupport(libE_info, GEN), libE_info["workerID"], None)
        ps.role = "gen"
        i, tag, rec = 0, None, None
        while tag not in (ens.STOP_TAG, ens.PERSIS_STOP):
            out = next_batch(run, i, rec, ps)
            if out is None:
                break
            ps.send(out)
            i += 1
            tag, _, rec = ps.recv()
        return None, persis_info, FINISHED_PERSISTENT_GEN_TAG

    return gen


def others(case, rec):
    from libensemble.alloc_funcs import fast_alloc_and_pausing, inverse_bayes_allocf, persistent_aposmm_alloc, start_fd_persistent

    case = dict(case, user={}, gen_in=[])
    a = case["alloc"]
    run = work.init_run(case)
    n, p, nf = case["dims"]
    H0 = None
    fvals = [np.nan if v is None else v for v in case["f"]]
    pi = {w: {"id": w} for w in range(case["nw"] + 1)}
    user = {}
    gen_in, persis_in = (["x", "sim_id"] if a in ("aposmm", "pause") else []), ["x", "sim_id"]
    flds = {
        "aposmm": [("x", float, (2,)), ("local_pt", bool), ("sim_id", int)],
        "fd": [("x", float, (2,)), ("x_ind", int), ("f_ind", int), ("n_ind", int)],
        "ibayes": [("x", float, (2,)), ("batch", int), ("subbatch", int), ("weight", float)],
        "pause": [("x", float, (2,)), ("pt_id", int), ("obj_component", int), ("local_pt", bool)],
    }[a]
    sim_out = {"aposmm": [("f", float)], "fd": [("f_val", float)], "ibayes": [("like", float)], "pause": [("f_i", float)]}[a]

    def fill(run, k):
        out = np.zeros(k, dtype=flds)
        for i in range(k):
            out["x"][i] = work.xval(run.total + i)
        run.total += k
        return out

    if a == "aposmm":
        fn = persistent_aposmm_alloc.persistent_aposmm_alloc
        user = {"initial_sample_size": case["init"]}
        if case["h0"]:
            H0 = np.zeros(case["h0"], dtype=[("x", float, (2,)), ("f", float), ("local_pt", bool), ("sim_started", bool), ("sim_ended", bool), ("gen_informed", bool)])
            H0["x"] = [work.xval(i) for i in range(case["h0"])]
            for c in ("sim_started", "sim_ended", "gen_informed"):
                H0[c] = True
            H0["local_pt"][0] = case["mask"] & 1
            run.total = case["h0"]
        case["samples"] = int(np.sum(~H0["local_pt"])) if H0 is not None else 0

        def nxt(run, i, got, ps):
            if i > 0 and not case["bat"][i % len(case["bat"])] and i > 3:
                return None  # the generator leaves
            if case["cancel"] and i and run.total > case["init"] + case["h0"] + 1:
                run.cancelled.add(run.total - 1)
                ps.request_cancel_sim_ids([run.total - 1])
            out = fill(run, case["init"] + case["bat"][0] if i == 0 else 1 + case["bat"][i % len(case["bat"])])
            out["sim_id"] = np.arange(run.total - len(out), run.total)
            out["local_pt"] = i > 0
            return out

        gen = persis_gen(nxt)
    elif a == "fd":
        fn = start_fd_persistent.finite_diff_alloc
        user = {"n": n, "p": p, "nf": nf}
        again = {}

        def nxt(run, i, got, ps):
            pairs = [(x, f) for x in range(n) for f in range(p)] if i == 0 else []
            if i:
                for x, f in sorted({(int(r["x_ind"]), int(r["f_ind"])) for r in got}):
                    again[x, f] = again.get((x, f), 0) + 1
                    if again[x, f] <= case["bat"][(x * p + f) % len(case["bat"])]:
                        pairs.append((x, f))
                    else:
                        again[x, f] = 100
                if len(again) == n * p and all(v >= 100 for v in again.values()):
                    return None
            out = fill(run, len(pairs) * nf)
            for j in range(len(out)):
                out["x_ind"][j], out["f_ind"][j] = pairs[j // nf]
                out["n_ind"][j] = j % nf
            return out

        persis_in = ["x_ind", "f_ind", "n_ind", "f_val", "sim_id"]
        gen = persis_gen(nxt)
    elif a == "ibayes":
        fn = inverse_bayes_allocf.only_persistent_gens_for_inverse_bayes
        user = {"subbatch_size": n, "num_subbatches": p}

        def nxt(run, i, got, ps):
            if i > 0 and not case["bat"][i % len(case["bat"])] and i > 3:
                return None
            out = fill(run, n * p)
            out["batch"] = i
            out["subbatch"] = np.arange(n * p) // n
            out["weight"] = i + 0.5
            return out

        gen = persis_gen(nxt)
    else:
        fn = fast_alloc_and_pausing.give_sim_work_first
        case["user"] = {k: True for k in ("stop_on_NaNs", "stop_partial_fvec_eval") if case["opts"][k]}
        case["user"]["batch_mode"] = bool(case["init"] % 2)
        if case["opts"]["num"]:
            case["user"]["num_active_gens"] = case["opts"]["num"]
        user = {"combine_component_func": lambda v: float(np.sum(np.square(v)))}
        pi.update(
            last_worker=0, last_size=0, total_gen_calls=0, next_to_give=0, need_to_give=set(), complete=set(), has_nan=set(), already_paused=set(),
            H_len=0, best_complete_val=np.inf, local_pt_ids=set(), inds_of_pt_ids={}, pt_ids=set(),
        )
        flds = flds + [("paused", bool)]
        run.pts = 0

        def gen(run, k, H, persis_info, specs, libE_info):
            m = 1 + case["bat"][k % len(case["bat"])]
            out = fill(run, m * p)
            out["pt_id"] = run.pts + np.arange(m * p) // p
            out["obj_component"] = np.arange(m * p) % p
            out["local_pt"] = [bool(case["mask"] >> (i % 12) & 1) and case["mask"] % 3 == 0 for i in out["pt_id"]]
            run.pts += m
            return out

    def sim(run, k, H, persis_info, specs, libE_info):
        out = np.zeros(len(H), dtype=sim_out)
        out[sim_out[0][0]] = [fvals[int(x[1]) % len(fvals)] for x in H["x"]]
        return out

    sim_specs = {"sim_f": run.wrap("sim", sim), "in": ["x"], "out": sim_out}
    gen_specs = {"gen_f": run.wrap("gen", gen), "in": gen_in, "persis_in": persis_in, "out": [x for x in flds if x[0] != "sim_id"], "user": user}
    libE_specs = {}
    if case["place"] == "gom" and a != "pause":
        libE_specs["gen_on_manager"] = True
    elif case["place"] == "gen_workers":
        libE_specs["gen_workers"] = [1 + case["gw"] % case["nw"]]
    alloc_specs = {"alloc_f": run.wrap_alloc(fn), "user": case["user"]}
    run.go(case["nw"], sim_specs, gen_specs, {"sim_max": case["sim_max"]}, pi, alloc_specs, libE_specs, H0)
    run.H0 = H0
    clean_run(run, f"a run with {fn.__name__} ({a})")
    cs = calls(run, case)
    for c in cs:
        OTHER[a](c, case)
    exit_rules(run, dict(case, exit={"sim_max": case["sim_max"]}))
    covered(cs, rec, case)


def one_persistent(c, case, first_rows):
    """What the three functions for one persistent generator share. True if the call may give work."""
    t = c.text
    common(c)
    if c.info["sim_max_given"] or not c.info["any_idle_workers"]:
        require(not c.Work and c.flag == 0, lambda: f"work or flag without idle workers{t()}", "work without idle workers")
        return False
    running = [w for w, x in c.W.items() if x["persis_state"] == GEN]
    require(len(running) + len(c.starts) <= 1, lambda: f"a second generator is started{t()}", "too many generators")
    if c.gens_before == 0:
        require(len(c.starts) == 1, lambda: f"no generator is started{t()}", "generator not started")
    for w in c.starts:
        require(c.Work[w]["libE_info"].get("persistent"), lambda: f"generator on {w} is not persistent{t()}", "generator not persistent")
        require(c.rows(w) == first_rows, lambda: f"the generator is given rows {c.rows(w)}{t()}", "rows for the generator")
    return True


def idle_gens(c):
    return [w for w, x in c.W.items() if x["persis_state"] == GEN and x["active"] == 0]


def gone(c):
    """The generator has left: the run ends."""
    t = c.text
    if c.gens_before and not [w for w, x in c.W.items() if x["persis_state"] == GEN]:
        require(c.flag == 1 and not c.Work, lambda: f"the generator is gone, but the run goes on{t()}", "generator gone")
        return True
    require(c.flag == 0, lambda: f"flag {c.flag}{t()}", "flag")
    return False


def aposmm(c, case):
    if not one_persistent(c, case, list(range(len(c.H)))) or gone(c):
        return
    done = int(np.sum(c.H["sim_ended"])) >= case["init"] + case["samples"]
    feeding(c, {w: c.unseen if done else [] for w in idle_gens(c)}, ["x", "sim_id"])
    handed_out(c, [[r] for r in c.avail])


def fd(c, case):
    if not one_persistent(c, case, []) or gone(c):
        return
    n, p, nf = case["dims"]
    H = c.H
    rows = []
    for x in range(n):
        for f in range(p):
            mine = [r for r in c.unseen if H["x_ind"][r] == x and H["f_ind"][r] == f]
            if len(mine) == nf:
                rows += mine
    feeding(c, {w: rows for w in idle_gens(c)}, ["x_ind", "f_ind", "n_ind", "f_val", "sim_id"])
    handed_out(c, [[r] for r in c.avail])


def ibayes(c, case):
    if c.gens_before and not [w for w, x in c.W.items() if x["persis_state"] == GEN]:
        return  # (starts another generator then)
    if not one_persistent(c, case, []):
        return
    H = c.H
    due = {}
    for w in idle_gens(c):
        mine = H["gen_worker"] == w
        due[w] = [int(r) for r in np.flatnonzero(mine & (H["batch"] == max(H["batch"][mine], default=-1)))] if c.ended(mine) else []
    feeding(c, due, ["like"])
    left, seq = list(c.avail), []
    while left:
        b = min(H["subbatch"][r] for r in left)
        seq.append([r for r in left if H["subbatch"][r] == b])
        left = [r for r in left if r not in seq[-1]]
    handed_out(c, seq)


def pause(c, case):
    t = c.text
    u = case["user"]
    H = c.H
    common(c)
    if c.info["sim_max_given"] or not c.info["any_idle_workers"]:
        require(not c.Work, lambda: f"work without idle workers{t()}", "work without idle workers")
        return
    require(not c.feeds, lambda: f"results fed{t()}", "unexpected feed")
    combine = lambda v: float(np.sum(np.square(v)))
    ids = sorted({int(i) for i in H["pt_id"]}) if len(H) else []
    inds = {i: np.flatnonzero(H["pt_id"] == i) for i in ids}
    has_nan = {i for i in ids if np.any(np.isnan(H["f_i"][inds[i]]))}
    complete = {i for i in ids if i not in has_nan and np.all(H["sim_ended"][inds[i]])}
    best = min([combine(H["f_i"][inds[i]]) for i in complete], default=np.inf)
    # what may not be given any more
    never = set()
    if u.get("stop_on_NaNs"):
        never |= has_nan
    if u.get("stop_partial_fvec_eval"):
        never |= {i for i in ids if i not in has_nan | complete and not H["local_pt"][inds[i][0]] and combine(H["f_i"][inds[i]]) > best}
    for w in c.sims:
        rows = c.rows(w)
        require(len(rows) == 1, lambda: f"several points for worker {w}{t()}", "several points")
        require(int(H["pt_id"][rows[0]]) not in never, lambda: f"component {rows} of point {H['pt_id'][rows[0]]} is given out although it need not be evaluated (best {best}){t()}",
                "component evaluated for nothing")
    given = {c.rows(w)[0] for w in c.sims}
    before = {int(r) for r in np.flatnonzero(c.paused_before)}
    left = [r for r in c.avail if r not in given and r not in before and int(H["pt_id"][r]) not in never]
    idle = [w for w in c.simw if w not in c.Work]
    require(not (left and idle), lambda: f"workers {idle} are idle and points {left} could be given{t()}", "free worker gets nothing")
    for r in before:
        i = int(H["pt_id"][r])
        require(i in c.never_ever | never, lambda: f"point {i} is paused without a reason{t()}", "paused without reason")
    active = sum(1 for w in c.W.values() if w["active"] == GEN)
    limit = u.get("num_active_gens")
    require(limit is None or not c.starts or active + len(c.starts) <= limit, lambda: f"too many generators{t()}", "too many generators")
    if u.get("batch_mode") and c.starts and len(H):
        out = [int(r) for r in np.flatnonzero(~H["sim_ended"]) if int(r) not in before and int(H["pt_id"][r]) not in never]
        require(not out, lambda: f"a generator is started in batch mode with points {out} outstanding{t()}", "generator started too early")


def pausing(c, case):
    """Carries along which points were ruled out by earlier calls."""
    run = c.run
    if not hasattr(run, "_never"):
        run._never = set()
    c.paused_before = c.H["paused"] if "paused" in c.H.dtype.names else np.zeros(len(c.H), bool)
    c.never_ever = run._never
    if len(c.H) and not c.info["sim_max_given"]:
        H, u = c.H, case["user"]
        ids = {int(i) for i in H["pt_id"]}
        inds = {i: np.flatnonzero(H["pt_id"] == i) for i in ids}
        comb = lambda v: float(np.sum(np.square(v)))
        nan = {i for i in ids if np.any(np.isnan(H["f_i"][inds[i]]))}
        comp = {i for i in ids if i not in nan and np.all(H["sim_ended"][inds[i]])}
        best = min([comb(H["f_i"][inds[i]]) for i in comp], default=np.inf)
        pause(c, case)
        if u.get("stop_on_NaNs"):
            run._never |= nan
        if u.get("stop_partial_fvec_eval"):
            run._never |= {i for i in ids if i not in nan | comp and not H["local_pt"][inds[i][0]] and comb(H["f_i"][inds[i]]) > best}
    else:
        common(c)


OTHER = {"aposmm": aposmm, "fd": fd, "ibayes": ibayes, "pause": pausing}

TARGETS = [
    Target("others", others_strategy, others, 1200, 15000),
    Target("supplied", strategy, supplied, 2400, 30000),
]
