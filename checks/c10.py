"""C10: workers' nodes, slots, cores and GPUs partition the machine."""
import os
import tempfile

from hypothesis import strategies as st

from vlib import pool
from vlib.core import Target, require

TECHNIQUE = "property-based testing: generated machines and sequences of team assignments against a layout made from the documented rules"
RULE = (
    "Generated machines (1-6 nodes, evenly and unevenly dealt resource sets, sets of several nodes, cores, hyperthreads, GPUs, "
    "GPU tiles, groups, zero-resource workers) and sequences of disjoint teams handed to the WorkerResources objects of 2-4 "
    "workers, each object used for several teams in turn. The layout is recomputed from the documented rules; nodes, slots, "
    "slot counts and GPU environment settings are compared with it and with what other workers name. Non-trivial: at least "
    "two workers hold teams at once and one of them shares a node with another or spans nodes."
)
ASSUMPTIONS = [
    "GPU settings are judged for teams made of GPU sets only",
    "with gpus_per_group, GPUs cover all sets of a node",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "m": pool.machine(max_nodes=6, max_per_node=6),
            "src": st.sampled_from(["platform", "platform", "info", "both"]),
            "nw": st.integers(2, 4),
            "zero": st.sampled_from([[], [], [], [1], [2]]),
            "tiles": st.sampled_from([1, 1, 1, 2]),
            "env": st.sampled_from([None, "MY_GPUS"]),
            "plat": st.sampled_from([{}, {}, {"gpu_setting_type": "env", "gpu_setting_name": "PLAT_GPUS"}, {"gpu_env_fallback": "FB_GPUS"}]),
            # each round: owner of every set (0: nobody), and GPU limits
            "rounds": st.lists(
                st.fixed_dictionaries(
                    {
                        "own": st.lists(st.integers(0, 4), min_size=1, max_size=12),
                        "sched": st.lists(st.integers(0, 6), max_size=4),
                        "use": st.sampled_from([None, True]),
                        "lim": st.sampled_from([None, None, 0, 1, 2, 5]),
                        "mult": st.integers(1, 3),
                    }
                ),
                min_size=1,
                max_size=5,
            ),
        }
    )


def run(case, rec):
    from libensemble.resources.scheduler import InsufficientFreeResources, InsufficientResourcesError, ResourceScheduler

    m, nw = case["m"], case["nw"]
    libE_specs = {"zero_resource_workers": case["zero"]}
    if case["tiles"] > 1:
        libE_specs["use_tiles_as_gpus"] = True
    plat = dict(case["plat"], tiles_per_gpu=case["tiles"])
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            res = pool.make_resources(dict(m, src=case["src"]), tmp, libE_specs=libE_specs, platform=plat)
        finally:
            os.chdir(cwd)
    names = pool.node_names(m)
    gpus = m["gpus"] * case["tiles"]
    lay = pool.layout(dict(m, gpus=gpus))
    n = len(lay)
    per_node = {i: [x for x in lay if i in x["nodes"]] for i in range(m["nodes"])}
    most = max(len(v) for v in per_node.values())
    res.set_resource_manager(nw)
    man = res.resource_manager
    # --- the manager's view
    require(len(man.rsets) == n, lambda: f"{len(man.rsets)} resource sets instead of {n} for {m}", "number of sets")
    for i, x in enumerate(lay):
        require(
            [names[k] for k in x["nodes"]] == list(man.split_list[i]),
            lambda: f"set {i} lies on {man.split_list[i]} instead of {[names[k] for k in x['nodes']]}: {m}",
            "nodes of a set",
        )
        got = (int(man.rsets["slot"][i]), bool(man.rsets["gpus"][i]))
        require(got == (x["slot"], x["gpu"]), lambda: f"set {i} has slot, gpu = {got} instead of {(x['slot'], x['gpu'])}: {m}", "slot of a set")
        for j in range(i):
            a = man.rsets["group"][i] == man.rsets["group"][j]
            require(bool(a) == (x["group"] == lay[j]["group"]), lambda: f"sets {i} and {j} are wrongly grouped: {m} {man.rsets}", "grouping")
    require(man.cores_per_rset_per_node * most <= m["cores"], lambda: f"{most} sets claim {man.cores_per_rset_per_node} cores each on a node of {m}", "cores claimed")
    require(
        man.cores_per_rset_per_node == m["cores"] // most, lambda: f"cores per set {man.cores_per_rset_per_node}: {m}", "cores per set"
    )
    gsets = min(most, gpus)
    gpr = gpus // gsets if gsets else 0
    require(man.gpus_per_rset_per_node == gpr, lambda: f"GPUs per set {man.gpus_per_rset_per_node} instead of {gpr}: {m}", "GPUs per set")
    # default sets of the workers
    ids = [w for w in range(1, nw + 1) if w not in case["zero"]]
    want = [None if w in case["zero"] or ids.index(w) >= n else ids.index(w) for w in range(1, nw + 1)]
    require(man.index_list == want, lambda: f"default sets {man.index_list} instead of {want}", "default sets")
    # --- the workers' view
    workers = {}
    for w in range(1, nw + 1):
        res.set_worker_resources(nw, w)
        workers[w] = res.worker_resources
    for rd in case["rounds"]:
        teams = {w: [] for w in workers}
        if rd["sched"]:
            sched = ResourceScheduler(user_resources=man)
            for w, req in zip(ids, rd["sched"]):
                try:
                    teams[w] = sched.assign_resources(req, use_gpus=rd["use"])
                except (InsufficientFreeResources, InsufficientResourcesError):
                    pass
        else:
            for i in range(n):
                o = rd["own"][i % len(rd["own"])]
                if o in teams and o not in case["zero"]:
                    teams[o].append(i)
        named, named_gpus = {}, {}
        for w, wr in workers.items():
            team = [int(i) for i in teams[w]]
            wr.set_rset_team(team)
            wr.set_gen_procs_gpus({"num_gpus": rd["lim"]} if rd["lim"] is not None else {})
            ctx = lambda: f"worker {w} with team {team} of {m}, zero {case['zero']}: nodes {wr.local_nodelist} slots {wr.slots}"
            if w in case["zero"]:
                require(not wr.local_nodelist, lambda: f"zero-resource worker has nodes: {ctx()}", "zero-resource worker")
                continue
            nodes = []
            slots = {}
            for i in team:
                for k in lay[i]["nodes"]:
                    if names[k] not in nodes:
                        nodes.append(names[k])
                    slots.setdefault(names[k], []).append(lay[i]["pos"])
            require(list(wr.local_nodelist) == nodes, lambda: f"nodes should be {nodes}: {ctx()}", "nodes of a worker")
            require(wr.local_node_count == len(nodes), lambda: f"node count {wr.local_node_count}: {ctx()}", "node count")
            got = {k: sorted(map(int, v)) for k, v in (wr.slots or {}).items()}
            require(got == {k: sorted(v) for k, v in slots.items()}, lambda: f"slots should be {slots}: {ctx()}", "slots of a worker")
            require(wr.num_rsets == len(team), lambda: f"num_rsets {wr.num_rsets}: {ctx()}", "number of sets of a worker")
            lens = {len(v) for v in slots.values()}
            lists = {tuple(v) for v in slots.values()}
            even, same = len(lens) <= 1, len(lists) <= 1
            require((wr.even_slots, wr.matching_slots) == (even, same), lambda: f"even, matching = {wr.even_slots, wr.matching_slots}: {ctx()}", "even or matching slots")
            cnt = lens.pop() if even and slots else None
            require(wr.slot_count == cnt, lambda: f"slot_count {wr.slot_count} instead of {cnt}: {ctx()}", "slot count")
            on = list(lists.pop()) if same and slots else None
            require((list(wr.slots_on_node) if wr.slots_on_node is not None else None) == on, lambda: f"slots_on_node {wr.slots_on_node}: {ctx()}", "slots on node")
            for k, v in slots.items():
                for s in v:
                    require((k, s) not in named, lambda: f"slot {s} of {k} is named by workers {named[k, s]} and {w}: {ctx()}", "slot named twice")
                    named[k, s] = w
            # text and environment
            if on is not None:
                txt = wr.get_slots_as_string(multiplier=rd["mult"], delimiter=";", limit=rd["lim"])
                lst = [s * rd["mult"] + j for s in on for j in range(rd["mult"])][: rd["lim"]]
                if case["tiles"] > 1:
                    lst = [f"{v // case['tiles']}.{v % case['tiles']}" for v in lst]
                require(txt == ";".join(map(str, lst)), lambda: f"slots as text {txt!r} instead of {lst}: {ctx()}", "slots as text")
            allgpu = bool(team) and all(lay[i]["gpu"] for i in team)
            anygpu = any(lay[i]["gpu"] for i in team)
            if (allgpu or not anygpu) and same:
                var = case["env"] or case["plat"].get("gpu_setting_name") or case["plat"].get("gpu_env_fallback") or "CUDA_VISIBLE_DEVICES"
                os.environ.pop(var, None)
                require(bool(wr.doihave_gpus()) == allgpu, lambda: f"doihave_gpus is {wr.doihave_gpus()}: {ctx()}", "doihave_gpus")
                wr.set_env_to_gpus(case["env"]) if case["env"] else wr.set_env_to_gpus()
                val = os.environ.pop(var, None)
                if not allgpu:
                    require(val is None, lambda: f"{var}={val} for a worker without GPUs: {ctx()}", "GPUs for a worker without")
                else:
                    lst = [s * gpr + j for s in on for j in range(gpr)][: rd["lim"]]
                    txt = ",".join(f"{v // case['tiles']}.{v % case['tiles']}" if case["tiles"] > 1 else str(v) for v in lst)
                    require(val == txt, lambda: f"{var}={val!r} instead of {txt!r}: {ctx()}", "GPU setting")
                    require(all(v < gpus for v in lst), lambda: f"{var}={val} names GPUs beyond the {gpus} of a node: {ctx()}", "GPU beyond the node")
                    for k in nodes:
                        for v in lst:
                            require((k, v) not in named_gpus, lambda: f"GPU {v} of {k} is named by two workers: {ctx()}", "GPU named twice")
                            named_gpus[k, v] = w
                    rec.label("GPU setting")
        held = [w for w in teams if teams[w]]
        shared = any(len({named[k2, s2] for (k2, s2) in named if k2 == k}) > 1 for k, _ in named)
        span = any(len({k for i in teams[w] for k in lay[i]["nodes"]}) > 1 for w in held)
        rec.label("teams from the scheduler" if rd["sched"] else "arbitrary teams")
        if len(held) > 1 and (shared or span):
            rec.nontrivial()
    if m["rsets"] < m["nodes"]:
        rec.label("sets of several nodes")
    if m["rsets"] % m["nodes"]:
        rec.label("uneven")
    if m.get("gpus_per_group"):
        rec.label("groups within nodes")
    if case["zero"]:
        rec.label("zero-resource worker")


TARGETS = [Target("machines", strategy, run, 8000, 200000)]
