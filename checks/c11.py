"""C11: MPI launch configurations are consistent and stay inside the worker's resources."""
import os
import tempfile

from hypothesis import strategies as st

from vlib import pool
from vlib.core import Target, require

TECHNIQUE = "property-based testing: generated resources and requests, run lines parsed back and compared with a reference for the documented rules"
RULE = (
    "Generated machines, worker teams, MPI runners, platform GPU settings and sequences of submissions with any combination of "
    "processes, nodes, processes per node, GPUs, hyperthreads, machine files and options in extra_args, all as dry runs. The "
    "run line is parsed back in the runner's syntax and must be self-consistent, honour fixed values, stay on the worker's "
    "nodes and GPUs, and equal what a reference of the documented rules gives; refusals must have a reason there. "
    "Non-trivial: at least one submission was accepted whose team has more than one slot or node."
)
ASSUMPTIONS = [
    "processes and GPUs that do not divide over the nodes are rounded up if the worker's share allows (as tested upstream)",
    "a number of GPUs above what was assigned is limited to that (as tested upstream)",
]

# runner -> role -> option names; the first is the one libEnsemble writes
SYNTAX = {
    "mpich": {"P": ["-np", "-n"], "K": ["--ppn", "-ppn"], "hosts": ["-hosts"], "mfile": ["-machinefile"]},
    "openmpi": {"P": ["-np", "-n", "-c", "--n"], "K": ["-npernode"], "hosts": ["-host"], "mfile": ["-machinefile"]},
    "aprun": {"P": ["-n"], "K": ["-N"], "hosts": ["-L"]},
    "msmpi": {"P": ["-n", "-np"], "K": ["-cores"]},
    "srun": {"P": ["--ntasks", "-n"], "N": ["--nodes", "-N"], "K": ["--ntasks-per-node"], "hosts": ["-w"]},
    "jsrun": {"P": ["-n", "--np"], "K": ["-r"]},
}
NAME = {"mpich": "mpirun", "openmpi": "mpirun", "aprun": "aprun", "msmpi": "mpiexec", "srun": "srun", "jsrun": "jsrun"}
DEFAULT_GPU = {"srun": {"option_gpus_per_task": "--gpus-per-task", "option_gpus_per_node": "--gpus-per-node"},
               "jsrun": {"option_gpus_per_task": "-g", "option_gpus_per_node": None}}

num = lambda hi: st.sampled_from([None, None] + list(range(1, hi + 1)))
SUB = st.fixed_dictionaries(
    {
        "P": st.one_of(st.none(), st.integers(1, 12), st.integers(1, 40)),
        "N": st.sampled_from([None, None, None, 1, 1, 2, 2, 3, 4]),
        "K": st.sampled_from([None, None, None, None, 1, 2, 3, 4, 6]),
        "fit": st.sampled_from([True, True, True, False]),
        "G": st.one_of(st.none(), st.none(), st.integers(0, 10)),
        "auto": st.sampled_from([False, False, True]),
        "match": st.sampled_from([False] * 14 + [True]),
        "hyper": st.sampled_from([False, False, True]),
        "mfile": st.sampled_from([None] * 9 + ["mf"]),
        # which of P, N, K are given in extra_args and with which spelling
        "extra": st.lists(st.tuples(st.sampled_from(["P", "N", "K", "other"]), st.integers(0, 3), st.integers(1, 8), st.booleans()), max_size=2),
        "gen": st.sampled_from([None] * 6 + [{"num_procs": 4}, {"num_gpus": 2}, {"num_procs": 6, "num_gpus": 3}, {"num_gpus": 0}]),
        "runner": st.sampled_from([None] * 5 + list(SYNTAX)),
        "args": st.sampled_from([None, "a b", "--n 3 -x 1"]),
        "team": st.lists(st.integers(0, 30), max_size=12),
    }
)


def strategy():
    return st.fixed_dictionaries(
        {
            "m": pool.machine(max_nodes=4, max_per_node=6, groups=False),
            "runner": st.sampled_from(list(SYNTAX)),
            "rname": st.sampled_from([None, None, None, "wrap -x mpi"]),
            "gpu": st.sampled_from([None, None, "runner_default", "env", "env", "node", "node=", "task", "node-default", "task-default"]),
            "bounds": st.sampled_from([False, False, False, False, True]),
            "nores": st.sampled_from([False] * 9 + [True]),
            "sched": st.sampled_from([True, True, False]),
            "subs": st.lists(SUB, min_size=1, max_size=3),
        }
    )


class Refuse(Exception):
    pass


def cdiv(a, b):
    return -(-a // b)


def expect(P, N, K, G, auto, match, w, fixed_extra):
    """Reference: (P, N, K, GPUs per node or None), or Refuse."""
    gpu = None
    none_given = not (P or K)
    if match and not none_given:
        raise Refuse("match with procs")
    if w is not None:
        T, s, C = w["T"], w["s"], w["cores"]
        if s is None:
            raise Refuse("uneven slots")
        if N is None and not K and (P or G is not None):
            n = 1
            if P:
                n = max(n, cdiv(P, s * w["ppr"]))
            if G:
                if not w["gpr"]:
                    raise Refuse("no GPUs on this machine")
                n = max(n, cdiv(G, s * w["gpr"]))
            n = min(n, T)
            N = min(n, P) if P else n
        if N:
            if G is not None and G % N:
                up = G + N - G % N
                G = up if up <= s * w["gpr"] * N else G
            if P is not None and P % N and "P" not in fixed_extra:
                up = P + N - P % N
                P = up if up <= s * w["ppr"] * N else P
    if auto or G is not None:
        if w is None:
            raise Refuse("GPUs without resources")
        have = s * w["gpr"] if w["gpu"] else 0
        if N is None:
            N = (P // K if K else min(P, T)) if P else T
        if not N:
            raise Refuse("no nodes")
        gpu = have if G is None else min(G // N, have)
        if none_given or match:
            K, P = gpu, N * gpu
            if not P:
                raise Refuse("no procs for no GPUs")
        elif not K:
            K = P // N
        if G == 0:
            gpu = None
    if w is None:
        if not P:
            if not (N and K):
                raise Refuse("nothing to go by")
            P = N * K
        elif not N:
            K = K or P
            N = P // K
        elif not K:
            K = P // N
    else:
        if not P and not K:
            if C < 1:
                raise Refuse("less than a core")
            K = C
            N = N or T
        elif not N and not K:
            N = 1 if P <= C else T
        elif not P and not N:
            N = T
        if not P:
            P = N * K
        elif not N:
            N = P // K
        elif not K:
            K = P // N
        if N > T:
            raise Refuse("too many nodes")
        if w["bounds"] and (K > C or P > w["cpn"] * T):
            raise Refuse("core bounds")
    if P != N * K or not P:
        raise Refuse("inconsistent")
    return P, N, K, gpu


def run(case, rec):
    cwd = os.getcwd()
    env = dict(os.environ)
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            go(case, rec, tmp)
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)


def go(case, rec, tmp):
    from libensemble.executors.executor import Executor
    from libensemble.executors.mpi_executor import MPIExecutor
    from libensemble.resources.scheduler import InsufficientFreeResources, InsufficientResourcesError, ResourceScheduler

    m = case["m"]
    plat = {"mpi_runner": case["runner"]}
    g = case["gpu"]
    if g in ("runner_default", "env"):
        plat["gpu_setting_type"] = g
        if g == "env":
            plat["gpu_setting_name"] = "PLAT_GPUS"
    elif g:
        plat["gpu_setting_type"] = "option_gpus_per_task" if g.startswith("task") else "option_gpus_per_node"
        if not g.endswith("default"):
            plat["gpu_setting_name"] = {"node": "--gpn", "node=": "--gpn=", "task": "--gpt"}[g]
    res = pool.make_resources(m, tmp, libE_specs={"enforce_worker_core_bounds": case["bounds"]})
    res.set_resource_manager(2)
    res.set_worker_resources(2, 1)
    wr = res.worker_resources
    lay = pool.layout(m)
    names = pool.node_names(m)
    most = max(sum(i in x["nodes"] for x in lay) for i in range(m["nodes"]))
    gsets = min(most, m["gpus"])
    gpr = m["gpus"] // gsets if gsets else 0
    Executor.executor = None
    ex = MPIExecutor(custom_info={"mpi_runner": case["runner"], **({"runner_name": case["rname"]} if case["rname"] else {})})
    ex.add_platform_info(plat)
    app = os.path.join(tmp, "app.x")
    ex.register_app(full_path=app, app_name="app")
    ex.set_worker_info(comm=None, workerid=1)
    if not case["nores"]:
        ex.set_resources(res)
    for sub in case["subs"]:
        if case["sched"]:
            team = []
            try:
                team = [int(i) for i in ResourceScheduler(user_resources=res.resource_manager).assign_resources(1 + len(sub["team"]))]
            except (InsufficientFreeResources, InsufficientResourcesError):
                pass
        else:
            team = sorted({i % len(lay) for i in sub["team"]})
        if not team:
            team = [0]
        wr.set_rset_team(team)
        pos = {}
        for i in team:
            for k in lay[i]["nodes"]:
                pos.setdefault(names[k], []).append(lay[i]["pos"])
        nodes = list(pos)
        lens = {len(v) for v in pos.values()}
        same = len({tuple(v) for v in pos.values()}) == 1
        allgpu, anygpu = all(lay[i]["gpu"] for i in team), any(lay[i]["gpu"] for i in team)
        if anygpu != allgpu:
            continue  # mixed teams only come about when GPUs are not asked for
        phys = m["cores"]
        local = max(sum(lay[i]["nodes"][0] in x["nodes"] for x in lay) for i in team) if m["rsets"] >= m["nodes"] else 1
        s = lens.pop() if len(lens) == 1 else None
        cpr = phys // most
        ppr = cpr if cpr else phys * cdiv(most, phys)
        cpn = phys * m["smt"] if sub["hyper"] else phys
        w = {"T": len(nodes), "s": s, "ppr": ppr, "gpr": gpr, "gpu": allgpu, "bounds": case["bounds"], "cpn": cpn,
             "cores": cpn // local * (s or 0)}
        if case["nores"]:
            w = None
        runner = sub["runner"] or case["runner"]
        syn = SYNTAX[runner]
        if sub["fit"]:
            # mostly requests that can be met
            sub = dict(sub)
            if sub["N"]:
                sub["N"] = 1 + (sub["N"] - 1) % len(nodes)
            if sub["P"] and sub["K"]:
                sub["K"] = min(sub["K"], sub["P"])
                n_ = sub["N"] or max(1, min(len(nodes), sub["P"] // sub["K"]))
                sub["P"] = n_ * sub["K"]
            elif sub["P"] and sub["N"]:
                sub["P"] = cdiv(sub["P"], sub["N"]) * sub["N"]
            if case["bounds"] and sub["P"]:
                sub["P"] = min(sub["P"], len(nodes) * max(1, w["cores"] if w else 1))
        # extra args
        toks, fixed = [], {}
        for role, k, val, eq in sub["extra"]:
            if role == "other":
                toks += ["--opt", f"v{val}"]
            elif role in syn and role not in fixed:
                o = syn[role][k % len(syn[role])]
                fixed[role] = val
                toks += [f"{o}={val}"] if eq and o.startswith("--") else [o, str(val)]
        extra = " ".join(toks) or None
        P, N, K, G = (None if x in fixed else sub[x] for x in "PNKG")
        ex.set_gen_procs_gpus(sub["gen"] or {})
        kw = dict(num_procs=P, num_nodes=N, procs_per_node=K, num_gpus=G, auto_assign_gpus=sub["auto"],
                  match_procs_to_gpus=sub["match"], hyperthreads=sub["hyper"], machinefile=sub["mfile"],
                  extra_args=extra, app_args=sub["args"], mpi_runner_type=sub["runner"])
        # the portable option wins over extra_args (where it is then not repeated)
        clash = any({"P": P, "N": N, "K": K}[r] is not None for r in fixed)
        eP = P if P or sub["match"] else (sub["gen"] or {}).get("num_procs")
        if "P" in fixed and eP != P and eP is not None:
            clash = True
        eG = G if G is not None else (sub["gen"] or {}).get("num_gpus")
        eN, eK = N, K
        if extra:
            eP = fixed.get("P") if eP is None else eP
            eN = fixed.get("N") if eN is None else eN
            eK = fixed.get("K") if eK is None else eK
        if clash:
            rec.label("same value twice")
            continue
        mfile = sub["mfile"] if "mfile" in syn else None
        ctx = lambda: f"submission {kw} gen {sub['gen']} on {nodes} {pos} of {m}, platform {plat}, runner {runner}"
        try:
            want = expect(eP, eN, eK, eG, sub["auto"], sub["match"], w, fixed)
            if mfile and w is not None:
                want = (None, None, None, want[3])
        except Refuse as e:
            want = e
            if mfile and str(e) not in ("match with procs",):
                continue  # a machine file stands for everything
        gtype = plat.get("gpu_setting_type", "runner_default") if not sub["runner"] or True else None
        gpu = want[3] if not isinstance(want, Refuse) else None
        opt = None
        if gpu is not None:
            # the runner object made for one submission has the platform's settings, too
            if gtype == "runner_default":
                gtype = "option_gpus_per_task" if runner in DEFAULT_GPU else "env"
                var, opt = "CUDA_VISIBLE_DEVICES", DEFAULT_GPU.get(runner, {}).get("option_gpus_per_task")
            elif gtype == "env":
                var = plat["gpu_setting_name"]
            else:
                opt = plat.get("gpu_setting_name") or DEFAULT_GPU.get(runner, {}).get(gtype)
                if opt is None:
                    want = Refuse("runner has no GPU option")
            if not isinstance(want, Refuse) and gtype == "env" and not same:
                want = Refuse("slots do not match")
        try:
            task = ex.submit(app_name="app", dry_run=True, **kw)
        except Exception as e:
            require(isinstance(want, Refuse), lambda: f"refused with {type(e).__name__}: {e}; should give {want}: {ctx()}", "refused a good submission")
            rec.label("refused: " + str(want))
            continue
        line = task.runline
        require(not isinstance(want, Refuse), lambda: f"accepted as {line!r}; should be refused ({want}): {ctx()}", "accepted a bad submission")
        tok = line.split()
        name = (case["rname"] if case["rname"] and not sub["runner"] else NAME[runner]).split()
        require(tok[: len(name)] == name, lambda: f"{line!r} does not start with {name}: {ctx()}", "runner name")
        at = tok.index(app)
        require(tok[at + 1 :] == (sub["args"].split() if sub["args"] else []), lambda: f"application arguments in {line!r}: {ctx()}", "application arguments")
        seen, rest = {}, []
        body = tok[len(name) : at]
        i = 0
        while i < len(body):
            t = body[i]
            role = next((r for r, os_ in syn.items() if t.split("=")[0] in os_), None)
            if role is None or (opt and t.startswith(opt) and opt == "-g"):
                rest.append(t)
                i += 1
                continue
            if "=" in t:
                val, i = t.split("=", 1)[1], i + 1
            else:
                val, i = body[i + 1], i + 2
            require(role not in seen, lambda: f"{role} is given twice in {line!r}: {ctx()}", "option given twice")
            seen[role] = val
        wantrest = []
        for j, t in enumerate(toks):
            if t == "--opt":
                wantrest += [t, toks[j + 1]]
        rP, rN, rK = (int(seen[x]) if x in seen else None for x in ("P", "N", "K"))
        p, n, k, gpu = want
        if gpu is not None and opt is not None:
            val = gpu // k if gtype == "option_gpus_per_task" and k else gpu
            wantrest += [f"{opt}{val}"] if opt.endswith("=") else [opt, str(val)]
        if mfile is None or w is None:
            if runner == "srun":
                wantrest.append("--exact")
            require(sorted(rest) == sorted(wantrest), lambda: f"{line!r} has {rest} besides the configuration, should have {wantrest}: {ctx()}", "other arguments")
        if mfile:
            require(seen.get("mfile") == mfile, lambda: f"machine file not used in {line!r}: {ctx()}", "machine file")
            require("hosts" not in seen, lambda: f"machine file and hosts in {line!r}: {ctx()}", "machine file")
            rec.label("machine file")
            continue
        require(rP is None or rP == p, lambda: f"{line!r} has {rP} processes, should have {p}: {ctx()}", "processes")
        jr = runner == "jsrun" and eN is None and eK is None
        require("P" in seen, lambda: f"no number of processes in {line!r}: {ctx()}", "processes")
        if rN is not None:
            require(rN == n, lambda: f"{line!r} has {rN} nodes, should have {n}: {ctx()}", "nodes")
        elif "N" in syn:
            require(False, lambda: f"no number of nodes in {line!r}: {ctx()}", "nodes")
        if rK is not None:
            require(rK == k, lambda: f"{line!r} has {rK} per node, should have {k}: {ctx()}", "processes per node")
        elif not jr:
            require(False, lambda: f"no processes per node in {line!r}: {ctx()}", "processes per node")
        require(P is None or rP == P or (rP > P and rP - P < n), lambda: f"{P} processes asked for, {line!r}: {ctx()}", "processes not honoured")
        require(N is None or n == N, lambda: f"{N} nodes asked for, {line!r}: {ctx()}", "nodes not honoured")
        if w is not None:
            hosts = nodes[:n]
            if runner == "openmpi":
                with open(seen["mfile"]) as f:
                    lines = f.read().split()
                require(lines == [h for h in hosts for _ in range(k)], lambda: f"machine file {lines} for {line!r}: {ctx()}", "machine file")
                os.remove(seen["mfile"])
            elif "hosts" in syn:
                require(seen.get("hosts", "").split(",") == hosts, lambda: f"hosts in {line!r} should be {hosts}: {ctx()}", "hosts")
            if gpu is not None and opt is None:
                lst = [v * gpr + j for v in list(pos.values())[0] for j in range(gpr)][:gpu]
                require(task.env.get(var) == ",".join(map(str, lst)), lambda: f"{var}={task.env.get(var)!r} instead of {lst}: {ctx()}", "GPUs in the environment")
                rec.label("GPUs in the environment")
            else:
                bad = [v for v in task.env if v.endswith(("_GPUS", "VISIBLE_DEVICES"))]
                require(not bad, lambda: f"{bad} set although no GPUs are set that way: {task.env} {ctx()}", "GPUs in the environment")
            if gpu is not None and opt is not None:
                rec.label("GPUs on the run line")
            if len(nodes) > 1 or (s or 0) > 1:
                rec.nontrivial()
            rec.label("several nodes" if n > 1 else "one node")
        if fixed:
            rec.label("configuration in extra_args")
        rec.label("runner " + runner)


TARGETS = [Target("submissions", strategy, run, 16000, 400000)]
