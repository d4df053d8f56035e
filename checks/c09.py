"""C09: the scheduler gives well-formed resource teams and refuses only when it must."""
import itertools
import os
import tempfile

from hypothesis import strategies as st

from vlib import pool
from vlib.core import Target, require

TECHNIQUE = "property-based testing: generated machines and request histories, brute-force reference for what fits"
RULE = (
    "Generated machines (nodes, resource sets, GPUs, groups), scheduler options and histories of snapshots: in each, several "
    "requests (count, GPU kind) to one scheduler, some of the granted teams assigned to workers, then some workers freed. Each "
    "answer is judged against a layout made from the documented rules and a brute-force search over the free sets: well-formed "
    "team, fewest nodes, no larger than needed, permanent refusal exactly if the request exceeds what exists, temporary "
    "refusal only if nothing fits. Non-trivial: a request was made while sets were taken, over more than one node, and "
    "granted or refused for want of a fit."
)
ASSUMPTIONS = ["a request that could be met only by uneven shares of nodes counts as not fitting (documented)"]

REQ = st.tuples(st.integers(0, 14), st.sampled_from([None, None, None, True, False]), st.integers(0, 3))
STEP = st.fixed_dictionaries({"reqs": st.lists(REQ, min_size=1, max_size=4), "free": st.integers(0, 255)})


def strategy():
    return st.fixed_dictionaries(
        {
            "m": pool.machine(),
            "split2fit": st.sampled_from([None, True, False]),
            "match_slots": st.sampled_from([None, True, False]),
            "pre": st.lists(st.tuples(st.integers(0, 29), st.integers(1, 8)), max_size=10),
            "steps": st.lists(STEP, min_size=1, max_size=6),
        }
    )


def ideal(req, maxg, groups):
    """(size, nodes, per node) when all is free: fewest nodes, even if possible, else enlarged to be even."""
    n = -(-req // maxg)
    if n <= 1:
        return req, n, req
    for k in range(n, groups + 1):
        if req % k == 0:
            return req, k, req // k
    per = -(-req // n)
    return per * n, n, per


def fits(free, size, k, match):
    """Can `size` sets be had evenly from k groups of the free ones? free: group -> set of slots."""
    if size % k:
        return False
    per = size // k
    if not match:
        return sum(len(v) >= per for v in free.values()) >= k
    for comb in itertools.combinations([v for v in free.values() if len(v) >= per], k):
        if len(set.intersection(*comb)) >= per:
            return True
    return False


def run(case, rec):
    from libensemble.resources.scheduler import InsufficientFreeResources, InsufficientResourcesError, ResourceScheduler

    m = case["m"]
    with tempfile.TemporaryDirectory() as tmp:
        cwd = os.getcwd()
        os.chdir(tmp)
        try:
            res = pool.make_resources(m, tmp)
        finally:
            os.chdir(cwd)
    res.set_resource_manager(8)
    man = res.resource_manager
    lay = pool.layout(m)
    opts = {k: case[k] for k in ("split2fit", "match_slots") if case[k] is not None}
    split, match = opts.get("split2fit", True), opts.get("match_slots", True)
    groups = sorted({x["group"] for x in lay})
    size_of = {g: sum(x["group"] == g for x in lay) for g in groups}
    biggest = max(size_of.values())
    # the unit of a full node of each kind
    gpu_most = max(sum(x["group"] == g and x["gpu"] for x in lay) for g in groups)
    owner = {}
    for i, w in case["pre"]:
        if i < len(lay) and i not in owner:
            man.assign_rsets([i], w)
            owner[i] = w
    nontriv = False
    uneven = len(set(size_of.values())) > 1
    rec.label("uneven nodes" if uneven else "even nodes")
    if not split:
        rec.label("no split")
    if not match:
        rec.label("any slots")
    if m["gpus"] and any(not x["gpu"] for x in lay):
        rec.label("mixed GPU and non-GPU sets")
    for step in case["steps"]:
        sched = ResourceScheduler(user_resources=man, sched_opts=opts)
        free = {i for i in range(len(lay)) if i not in owner}
        teams = []
        before = [tuple(x) for x in man.rsets.tolist()]
        for req, use, par in step["reqs"]:
            kind = [i for i in range(len(lay)) if use is None or lay[i]["gpu"] == use]
            valid = [i for i in kind if i in free]
            by = {g: {lay[i]["slot"] for i in valid if lay[i]["group"] == g} for g in groups}
            what = f"request of {req} sets, use_gpus={use}, free {sorted(free)} of {m} with {opts}"
            try:
                got = sched.assign_resources(req, use_gpus=use, user_params=[par] if par else [])
            except InsufficientResourcesError:
                require(req > len(kind), lambda: f"refused for good although only {req} of {len(kind)} existing sets were asked for: {what}", "permanent refusal")
                rec.label("refused for good")
                continue
            except InsufficientFreeResources:
                require(req <= len(kind), lambda: f"refused for now although it can never be met: {what}", "temporary refusal of the impossible")
                require(req > 0, "refused a request for nothing")
                if par:
                    pass
                elif not uneven:
                    maxg = biggest if use is None else (gpu_most if use else biggest - gpu_most)
                    size, k0, per = ideal(req, maxg, len(groups))
                    can = fits(by, size, k0, match)
                    if split and not can and not par:
                        can = any(fits(by, size, k, match) for k in range(k0 + 1, len(groups) + 1))
                    require(not can, lambda: f"refused although it fits ({size} sets): {what}", "refused although it fits")
                elif len(groups) == 1 or req == 1:
                    require(len(valid) < req, lambda: f"refused although it fits: {what}", "refused although it fits")
                rec.label("refused for now")
                if len(free) < len(lay) and len(groups) > 1:
                    nontriv = True
                continue
            got = [int(i) for i in got]
            require(req <= len(kind), lambda: f"granted {got} although it exceeds what exists: {what}", "granted the impossible")
            require(len(set(got)) == len(got), lambda: f"team {got} names a set twice: {what}", "team with duplicates")
            require(set(got) <= free, lambda: f"team {got} has sets that are not free: {what}", "team with taken sets")
            require(set(got) <= set(kind), lambda: f"team {got} has sets of the wrong kind: {what}", "team of the wrong kind")
            require(len(got) >= req, lambda: f"team {got} is too small: {what}", "team too small")
            require(req > 0 or not got, lambda: f"team {got} for no sets: {what}", "team for nothing")
            if not got:
                continue
            used = {}
            for i in got:
                used.setdefault(lay[i]["group"], set()).add(lay[i]["slot"])
            require(len({len(v) for v in used.values()}) == 1, lambda: f"team {got} is uneven over the nodes: {what}", "uneven team")
            if match:
                require(len({frozenset(v) for v in used.values()}) == 1, lambda: f"slots of team {got} do not match: {what}", "slots do not match")
            if not uneven:
                maxg = biggest if use is None else (gpu_most if use else biggest - gpu_most)
                size, k0, per = ideal(req, maxg, len(groups))
                require(len(got) == size, lambda: f"team {got} has {len(got)} sets where {size} do: {what}", "team larger than needed")
                fewer = [k for k in range(k0, len(used)) if fits(by, size, k, match)]
                if not (par and len(used) > 1):
                    require(not fewer, lambda: f"team {got} uses {len(used)} nodes where {fewer[0]} do: {what}", "too many nodes")
                if not split:
                    require(len(used) == k0, lambda: f"team {got} was split although split2fit is off: {what}", "split although off")
            else:
                fewer = [k for k in range(1, len(used)) if len(got) == req and not par and fits(by, req, k, match)]
                require(not fewer, lambda: f"team {got} uses {len(used)} nodes where {fewer[0]} do: {what}", "too many nodes")
            if len(free) < len(lay) and len(groups) > 1:
                nontriv = True
            rec.label("granted over several nodes" if len(used) > 1 else "granted on one node")
            free -= set(got)
            teams.append(got)
        require([tuple(x) for x in man.rsets.tolist()] == before, lambda: f"scheduling changed the state of the pool: {before}", "scheduler changed the pool")
        for j, team in enumerate(teams):
            w = next((w for w in range(1, 9) if w not in owner.values()), None)
            if w is None or step["free"] >> j & 1 and j:
                continue  # not sent after all
            man.assign_rsets(team, w)
            for i in team:
                owner[i] = w
        for w in range(1, 9):
            if step["free"] >> w & 1 or w == 8:
                man.free_rsets(w)
                owner = {i: x for i, x in owner.items() if x != w}
        now = {i: int(a) for i, a in enumerate(man.rsets["assigned"]) if a != -1}
        require(now == owner, lambda: f"pool holds {now}, given out were {owner}", "pool bookkeeping")
        n = len(lay)
        cnt = (man.rsets_free, man.gpu_rsets_free, man.nongpu_rsets_free)
        want = (n - len(owner), sum(lay[i]["gpu"] for i in range(n) if i not in owner), sum(not lay[i]["gpu"] for i in range(n) if i not in owner))
        require(tuple(map(int, cnt)) == want, lambda: f"free counts {cnt}, should be {want}", "free counts")
    rec.nontrivial(nontriv)


TARGETS = [Target("histories", strategy, run, 16000, 400000)]
