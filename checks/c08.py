"""C08: no resource is ever assigned to two workers at once, and none leaks."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, pool, work
from vlib.core import Inconclusive, Target, Violation, require
from vlib.judge import clean_run

TECHNIQUE = "property-based testing: whole runs on generated machines and resource requests, every assignment followed over the message history against an ownership model"
RULE = (
    "Whole runs with resource management on generated machines (1-4 nodes, even and uneven resource sets, cores, GPUs): (supplied) supplied "
    "allocation functions with points asking for resource sets, processes or GPUs, generators with resources, persistent simulators, zero-resource "
    "workers, generator on the manager, scheduler options; (own) an allocation function that hands out explicit teams, empty teams and "
    "orders without a team (default resources). An ownership model follows each order until its results are received (or the worker leaves "
    "persistent mode): teams of different workers must be disjoint, large enough, GPU-equipped if asked, existing, equal to what the "
    "user function is told; requests for the whole pool keep coming so that a leak would stop the run. Non-trivial: at least two "
    "workers held resources at the same time and some request had to use two or more resource sets."
)
ASSUMPTIONS = ["requests fit into the pool (on one node, or all of it)", "an allocation function that names teams itself names free ones"]
CAP_S = 200


def shard_setup():
    ens.quiet_logs()


def with_machine(c, fn):
    tmp = tempfile.mkdtemp(prefix="v08_")
    try:
        path = os.path.join(tmp, "nodes")
        with open(path, "w") as f:
            f.write("".join(n + "\n" for n in pool.node_names(c)))
        spec = {
            "resource_info": {"node_file": path, "cores_on_node": (c["cores"], c["cores"] * c["smt"]), "gpus_on_node": c["gpus"]},
            "num_resource_sets": c["rsets"],
            # so that no run looks for an MPI runner with a subprocess
            "platform_specs": {"mpi_runner": "openmpi", "runner_name": "mpirun"},
        }
        if c.get("gpus_per_group"):
            spec["gpus_per_group"] = c["gpus_per_group"]
        return fn(spec)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def follow(run, case, need, rec, explicit=None):
    """The ownership model. need(role, rows, H, body) -> (resource sets, gpu needed) or None."""
    lay = pool.layout(case["m"])
    owner = {}
    open_persis = set()
    pend = {}  # worker -> order waiting for its call
    most = 1
    held_max = 0
    H = run.H
    zero = case.get("zero") or []
    for e in run.ev:
        w = e.d.get("w")
        if e.kind == "msend":
            b = e.d["body"]
            if not (isinstance(b, dict) and "libE_info" in b and e.d["tag"] in (1, 2)):
                continue
            team = b["libE_info"].get("rset_team")
            require(team is not None, lambda: f"order for worker {w} without a resource team: {b}", "order without team")
            team = [int(t) for t in team]
            require(len(set(team)) == len(team) and all(0 <= t < len(lay) for t in team), lambda: f"worker {w} is given resource sets {team} of {len(lay)}", "impossible resource sets")
            for t in team:
                require(owner.get(t, w) == w, lambda: f"resource set {t} is given to worker {w} while worker {owner[t]} holds it\n{run.tail()}", "resource set given twice")
            role = {1: "sim", 2: "gen"}[e.d["tag"]]
            if w in open_persis:
                require(not team or set(team) <= {t for t in owner if owner[t] == w}, lambda: f"persistent worker {w} is given other resource sets {team}", "persistent worker given resources")
            else:
                if explicit is None or explicit(e) is None:
                    want = need(role, b, H, w)
                    if want is not None:
                        n, gpu = want
                        require(len(team) >= n, lambda: f"worker {w} is given {team} for work that asks for {n} resource sets", "too few resource sets")
                        require(not gpu or all(lay[t]["gpu"] for t in team), lambda: f"worker {w} is given {team}, not all with GPUs", "resource sets without GPUs")
                        if n == 0 and (explicit is None):
                            require(team == [], lambda: f"worker {w} is given {team} for work that asks for none", "resources for work that asks for none")
                else:
                    require(team == explicit(e), lambda: f"worker {w} is given {team}, the allocation function said {explicit(e)}", "explicit team not honoured")
            for t in team:
                owner[t] = w
            most = max(most, len(team))
            if w not in open_persis:
                pend[w] = team
            if b["libE_info"].get("persistent"):
                open_persis.add(w)
            held_max = max(held_max, len(set(owner.values())))
        elif e.kind == "call":
            got = [int(t) for t in e.d["info"].get("rset_team", [])]
            require(got == pend.get(w, []), lambda: f"worker {w} is told {got}, its order said {pend.get(w)}", "team told to the user function")
        elif e.kind == "mget" and e.d["serial"] is not None and e.d["serial"] > 0:
            ret = rets(run).get(e.d["serial"])
            if ret is None and w in open_persis:
                continue  # still in persistent mode
            open_persis.discard(w)
            for t in [t for t in owner if owner[t] == w]:
                del owner[t]
    rec.label(f"{case['m']['nodes']} nodes")
    if case["m"]["gpus"]:
        rec.label("GPUs")
    if zero:
        rec.label("zero-resource workers")
    if most > 1:
        rec.label("several resource sets")
    rec.nontrivial(held_max >= 2 and most >= 2, interest=held_max * most)


def rets(run):
    if not hasattr(run, "_rets"):
        run._rets = {e.d["serial"]: e for e in run.of("ret")}
    return run._rets


def per_rset(m):
    """Processes and GPUs one resource set has (only on evenly divided machines), else None."""
    n, r = m["nodes"], m["rsets"]
    if r % n:
        return None
    k = r // n
    cores = m["cores"] // k
    if cores == 0:
        cores = m["cores"] * (-(-k // m["cores"]))
    gset = min(m["gpus"], k)
    return cores, (m["gpus"] // gset if gset else 0), gset


# ------------------------------------------------------------------ supplied


@st.composite
def supplied_strategy(draw):
    c = draw(work.supplied_strategy(allocs=("gswf", "gswf", "fast", "one", "opg", "opg"), maxw=5, H0=None, cancel=False, psim=True, own=True))
    per = draw(st.integers(1, 4))
    nodes = draw(st.integers(1, 3))
    odd = draw(st.sampled_from([0, 0, 0, 1]))
    rsets = max(1, nodes * per - (odd if nodes > 1 and per > 1 else 0))
    m = {"nodes": nodes, "rsets": rsets, "cores": draw(st.sampled_from([2, 4, 8, 16])), "smt": draw(st.sampled_from([1, 2])), "gpus": draw(st.sampled_from([0, 0, 1, 2, 4, 8]))}
    c["m"] = m
    small = rsets // nodes
    kind = draw(st.sampled_from(["none", "resource_sets", "resource_sets", "num_procs", "num_gpus", "both"]))
    pr = per_rset(m)
    if pr is None and kind != "none" or (kind in ("num_gpus", "both") and not pr[2]):
        kind = "resource_sets"
    cols = {}
    if kind == "resource_sets":
        big = [rsets] if rsets % nodes == 0 else []
        cols["resource_sets"] = draw(st.lists(st.sampled_from(list(range(0, small + 1)) + big), min_size=1, max_size=5))
    if kind in ("num_procs", "both"):
        cols["num_procs"] = draw(st.lists(st.integers(1, max(1, pr[0] * small)), min_size=1, max_size=5))
        if kind == "both":  # the GPU sets must do
            cols["num_procs"] = [min(x, max(1, pr[0] * pr[2])) for x in cols["num_procs"]]
    if kind in ("num_gpus", "both"):
        cols["num_gpus"] = draw(st.lists(st.integers(0, pr[1] * pr[2]), min_size=1, max_size=5))
    c["cols"] = cols
    for g in c["gens"] if c["alloc"] == "opg" else [c["gens"]]:
        for b in g:
            b.pop("upd", None)
            b.pop("new", None)
            b["cols"] = cols
    c["sims"] = [dict(s, none=False, few=False, new=0) for s in c["sims"]]
    if c["popts"] if c["alloc"] == "opg" else False:
        c["popts"]["ret"] = "none"
        c["popts"]["filler"] = max(1, c["popts"]["filler"])
    u = c["user"]
    pi = {}
    g = draw(st.sampled_from([0, 0, 1, 2, "procs"]))
    ngen = u.get("num_active_gens", 1 if c["alloc"] == "opg" else 0) or 0
    psims = bool(u.get("alt_type"))
    if psims:  # each keeps its resources until the end of the run: there must be enough for all
        for k in list(cols):
            cols[k] = [1]
        kinds = {}
        if "num_gpus" in cols or rsets < c["nw"]:
            g = 0
    if g == "procs" and pr and ngen and not psims:
        pi["gen_num_procs"] = pr[0]
        g = 1
    elif g and g != "procs" and not psims:
        pi["gen_resources"] = g
    else:
        g = 0
    # what persistent generators keep must leave room for the largest request
    if g and (ngen != 1 or c["alloc"] != "opg" or any(x > rsets - g for x in (sets_needed(c, v) for v in range(60))) or rsets <= g or nodes > 1 or m["gpus"]):
        if c["alloc"] == "opg" or g > small:
            pi = {}
    if psims:
        pi = {}
    c["pi_extra"] = pi
    if psims and rsets < c["nw"]:
        u.pop("alt_type", None)
        c.pop("psim", None)
        c["use_ret_sim"] = False
    c["split"] = draw(st.booleans())
    c["match"] = draw(st.booleans())
    c["zero"] = [1] if c["alloc"] == "opg" and not c["gom"] and ngen == 1 and draw(st.booleans()) else []
    c["final"] = False
    return c


def sets_needed(c, i):
    """Resource sets point i asks for (number, GPUs wanted)."""
    return request(c, i)[0]


def request(c, i):
    cols, m = c["cols"], c["m"]
    pr = per_rset(m)
    n, gpu = 1, False
    if "resource_sets" in cols:
        n = cols["resource_sets"][i % len(cols["resource_sets"])]
    elif "num_procs" in cols:
        n = -(-cols["num_procs"][i % len(cols["num_procs"])] // pr[0])
    if "num_gpus" in cols:
        k = cols["num_gpus"][i % len(cols["num_gpus"])]
        if k:
            n, gpu = max(n, -(-k // pr[1])), True
    return n, gpu


def supplied(case, rec):
    def go(spec):
        spec = dict(spec, scheduler_opts={"split2fit": case["split"], "match_slots": case["match"]})
        if case["zero"]:
            spec["zero_resource_workers"] = case["zero"]
        out = [(k, int) for k in case["cols"]]
        return work.run_supplied(case, extra_specs=spec, gen_out=out)

    run = with_machine(case["m"], go)
    try:
        clean_run(run)
    except Violation as v:
        if "InsufficientResourcesError" in str(v):
            raise Inconclusive("request that does not fit") from None
        raise

    def need(role, body, H, w):
        if role == "gen":
            if "gen_resources" in case["pi_extra"]:
                return case["pi_extra"]["gen_resources"], False
            if "gen_num_procs" in case["pi_extra"]:
                return 1, False
            return 0, False
        qs = [request(case, int(run.H["x"][r][1])) for r in body["libE_info"]["H_rows"]]
        return max(q[0] for q in qs), any(q[1] for q in qs)

    follow(run, case, need, rec)
    rec.label(case["alloc"])
    for k in case["cols"]:
        rec.label("asks " + k)
    if case["pi_extra"]:
        rec.label("generator with resources")
    if case["gom"]:
        rec.label("generator on manager")


# ------------------------------------------------------------------ own teams and default teams


def own_alloc(run, case):
    orig = work.fuzz_alloc(run, case)
    dec = case["tdec"]
    state = {"i": 0}
    hold = {}

    def nxt(n):
        state["i"] += 1
        return dec[state["i"] % len(dec)] % n

    def alloc(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info):
        out = orig(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info)
        Work = out[0]
        ids = [int(i) for i in W["worker_id"]]
        busy = {i for i, a, p in zip(ids, W["active"], W["persis_state"]) if a or p}
        for w in [w for w in hold if w not in busy]:
            del hold[w]
        R = case["m"]["rsets"]
        for w, o in Work.items():
            if w in busy:
                continue
            taken = {t for v in hold.values() for t in v}
            default = [w - 1] if 1 <= w <= R else []
            k = nxt(4)
            free = [t for t in range(R) if t not in taken]
            if case["mix"] == "default" or (k == 0 and not set(default) & taken):
                hold[w] = default
                if set(default) & taken:
                    o["libE_info"]["rset_team"] = hold[w] = []
                continue
            if k == 1:
                team = []
            else:
                team = [free[(nxt(R) + j) % len(free)] for j in range(1 + nxt(2))] if free else []
                team = sorted(set(team))
            hold[w] = team
            o["libE_info"]["rset_team"] = list(team)
        return out

    return alloc


def own(case, rec):
    def go(spec):
        orig = work.fuzz_alloc
        base = own_alloc

        def make(run, c):
            work.fuzz_alloc = orig
            try:
                return base(run, c)
            finally:
                work.fuzz_alloc = make

        work.fuzz_alloc = make
        try:
            return work.run_fuzz(case, spec)
        finally:
            work.fuzz_alloc = orig

    run = with_machine(case["m"], go)
    clean_run(run)
    last = {}
    teams = {}
    for e in run.ev:
        if e.kind == "alloc_out":
            for w, o in e.d["Work"].items():
                last[w] = o["libE_info"].get("rset_team")
        elif e.kind == "msend" and isinstance(e.d["body"], dict) and "libE_info" in e.d["body"]:
            teams[id(e)] = last.get(e.d["w"])
    R = case["m"]["rsets"]

    def need(role, body, H, w):
        # no team named: the worker's own resource set, if there is one
        want = [w - 1] if 1 <= w <= R else []
        got = [int(t) for t in body["libE_info"]["rset_team"]]
        require(got == want, lambda: f"worker {w} of {case['nw']} with {R} resource sets gets {got} by default, expected {want}", "default resource set")
        return None

    follow(run, case, need, rec, explicit=lambda e: teams.get(id(e)))
    rec.label("own teams" if case["mix"] != "default" else "default teams")


@st.composite
def own_strategy(draw):
    c = draw(work.fuzz_strategy())
    nodes = draw(st.integers(1, 2))
    c["m"] = {"nodes": nodes, "rsets": draw(st.integers(nodes, 6)), "cores": 8, "smt": 1, "gpus": draw(st.sampled_from([0, 2]))}
    c["mix"] = draw(st.sampled_from(["default", "mix", "mix"]))
    c["tdec"] = draw(st.lists(st.integers(0, 30), min_size=2, max_size=12))
    c["H0"] = None
    return c


TARGETS = [
    Target("supplied", supplied_strategy, supplied, 4000, 80000),
    Target("own", own_strategy, own, 2000, 40000),
]
