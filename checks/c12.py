"""C12: node lists supplied by batch systems are decoded exactly."""
import os
import tempfile

from hypothesis import strategies as st

from vlib.core import Target, require

TECHNIQUE = "property-based testing: node lists rendered in each batch system's syntax and decoded back (round trip)"
RULE = (
    "Generated sets of nodes are rendered the way each batch system writes them (Slurm ranges with zero padding, prefixes, "
    "suffixes and several groups; Cobalt ids; PBS node files with repeats and domains; LSF long and short form with launch "
    "nodes; a node_list file), with several sources present at once, under default and user-chosen variable names. The node "
    "list and, for LSF, the cores per node are compared with the generated set; dedicated mode must remove exactly the nodes "
    "running libEnsemble. Non-trivial: at least three nodes, and padding, a suffix, several groups or several sources."
)
ASSUMPTIONS = ["Slurm and Cobalt lists come back sorted (by name, by number), the others in the given order"]

PRE = st.sampled_from(["nid", "n", "knl-", "bdw-", "c1-n", "node", "x0y", "lassen", "h_"])
SUF = st.sampled_from(["", "", "", ".cluster", "-ib"])


@st.composite
def group(draw):
    """One bracket group: numbers with a common width."""
    width = draw(st.sampled_from([0, 0, 2, 3, 4, 5]))
    lo = draw(st.integers(0, 120))
    parts, nums = [], []
    for _ in range(draw(st.integers(1, 4))):
        a = lo + draw(st.integers(0, 15))
        b = a + draw(st.sampled_from([0, 0, 1, 2, 5, 11]))
        lo = b + 1
        parts.append([a, b])
    return {"pre": draw(PRE), "suf": draw(SUF), "width": width, "parts": parts, "bracket": draw(st.booleans())}


@st.composite
def strategy(draw):
    return {
        "groups": draw(st.lists(group(), min_size=1, max_size=4)),
        "rev": draw(st.booleans()),
        "cobalt": draw(st.lists(st.tuples(st.integers(1, 400), st.integers(0, 6)), min_size=1, max_size=5)),
        "hosts": draw(st.lists(st.tuples(st.sampled_from(["a", "b", "h", "node"]), st.integers(0, 30), st.integers(1, 6)), min_size=1, max_size=7)),
        "domain": draw(st.sampled_from(["", "", ".lab.gov"])),
        "launch": draw(st.sampled_from([None, None, "batch5", "batch1"])),
        "cores": draw(st.integers(1, 44)),
        "sources": draw(st.lists(st.sampled_from(["Slurm", "Cobalt", "PBS", "LSF", "LSF_shortform", "file"]), min_size=1, max_size=3, unique=True)),
        "empty": draw(st.sampled_from([None, None, None, "Slurm", "LSF", "Cobalt"])),
        "own_names": draw(st.booleans()),
        "dedicated": draw(st.booleans()),
        "libe": draw(st.lists(st.integers(0, 20), max_size=3)),
    }


VARS = {"Slurm": "SLURM_NODELIST", "Cobalt": "COBALT_PARTNAME", "PBS": "PBS_NODEFILE", "LSF": "LSB_HOSTS", "LSF_shortform": "LSB_MCPU_HOSTS"}
ORDER = ["Slurm", "Cobalt", "PBS", "LSF", "LSF_shortform"]
KEY = {"Slurm": "nodelist_env_slurm", "Cobalt": "nodelist_env_cobalt", "LSF": "nodelist_env_lsf", "LSF_shortform": "nodelist_env_lsf_shortform"}


def slurm(case):
    seen, text, nodes = set(), [], []
    for g in case["groups"]:
        fmt = lambda k: g["pre"] + str(k).zfill(g["width"]) + g["suf"]
        parts, mine = [], []
        for a, b in g["parts"]:
            if g["width"] == 0 and len(str(a)) != len(str(b)):
                b = a  # Slurm would write such a range apart
            if any(fmt(k) in seen for k in range(a, b + 1)):
                continue
            mine += [fmt(k) for k in range(a, b + 1)]
            seen.update(mine)
            A, B = str(a).zfill(g["width"]), str(b).zfill(g["width"])
            parts.append(A if a == b else (f"{B}-{A}" if case["rev"] and len(A) == len(B) else f"{A}-{B}"))
        if not parts:
            continue
        nodes += mine
        if len(mine) == 1 and not g["bracket"]:
            text.append(mine[0])
        else:
            text.append(f"{g['pre']}[{','.join(parts)}]{g['suf']}")
    return ",".join(text), nodes


def cobalt(case):
    lo, parts, nodes = 0, [], []
    for a, n in case["cobalt"]:
        a = max(a, lo)
        parts.append(str(a) if n == 0 else f"{a}-{a + n}")
        nodes += [str(k) for k in range(a, a + n + 1)]
        lo = a + n + 1
    return ",".join(parts), nodes


def hosts(case):
    out = []
    for p, k, n in case["hosts"]:
        h = f"{p}{k}"
        if h not in [x[0] for x in out]:
            out.append((h, n))
    return out


def run(case, rec):
    cwd, env = os.getcwd(), dict(os.environ)
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            go(case, rec, tmp)
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)


def go(case, rec, tmp):
    from libensemble.resources.env_resources import EnvResources
    from libensemble.resources.node_resources import get_sub_node_resources
    from libensemble.resources.resources import Resources

    hs = hosts(case)
    names = dict(VARS)
    info = {}
    if case["own_names"]:
        for k, opt in KEY.items():
            names[k] = "MY_" + k.upper()
            info[opt] = names[k]
    for v in list(VARS.values()) + list(names.values()):
        os.environ.pop(v, None)
    want = {}
    launch = case["launch"]
    for src in case["sources"]:
        if src == "Slurm":
            txt, want[src] = slurm(case)
            want[src] = sorted(want[src])
        elif src == "Cobalt":
            txt, nodes = cobalt(case)
            want[src] = sorted(nodes, key=int)
        elif src == "PBS":
            txt = os.path.join(tmp, "pbs")
            with open(txt, "w") as f:
                f.write("".join((h + case["domain"] + "\n") * n for h, n in hs))
            want[src] = [h for h, _ in hs]
        elif src == "LSF":
            txt = " ".join(([launch] if launch else []) + [h for h, _ in hs for _ in range(case["cores"])])
            want[src] = [h for h, _ in hs]
        elif src == "LSF_shortform":
            txt = " ".join(([f"{launch} 1"] if launch else []) + [f"{h} {case['cores']}" for h, _ in hs])
            want[src] = [h for h, _ in hs]
        else:
            with open("node_list" if not case["own_names"] else "my_nodes", "w") as f:
                f.write("".join(h + "\n" for h, _ in hs))
            if case["own_names"]:
                info["node_file"] = "my_nodes"
            want[src] = [h for h, _ in hs]
            continue
        os.environ[names[src]] = txt
    if case["empty"] and case["empty"] not in want:
        os.environ[names[case["empty"]]] = ""
    first = next((s for s in ["file"] + ORDER if s in want), None)
    nodes = want[first]
    shown = {v: os.environ[v] for v in names.values() if v in os.environ}
    ctx = lambda: f"environment {shown}, sources {case['sources']}, own names {case['own_names']}"
    spec = {"resource_info": dict(info, cores_on_node=(4, 8)), "num_resource_sets": 1}
    if case["dedicated"]:
        spec["dedicated_mode"] = True
    plat = {"gpus_per_node": 0, "runner_name": "mpich"}
    res = Resources(spec, platform_info=plat, top_level_dir=tmp)
    got = list(res.glob_resources.global_nodelist)
    require(got == nodes, lambda: f"node list {got} instead of {nodes}: {ctx()}", f"node list from {first}")
    # cores
    env_src = [s for s in want if s != "file"]
    if env_src and set(env_src) <= {"LSF", "LSF_shortform"}:
        er = EnvResources(**{k: v for k, v in info.items() if k.startswith("nodelist")})
        c = get_sub_node_resources(env_resources=er)
        require(tuple(c[:2]) == (case["cores"],) * 2, lambda: f"cores per node {c[:2]} instead of {case['cores']}: {ctx()}", "cores per node")
        rec.label("cores per node")
    # nodes that run libEnsemble
    libe = [nodes[i % len(nodes)] for i in case["libe"]]
    sched = next((s for s in ORDER if s in want), None)
    full = libe
    if sched == "Cobalt" and first == "Cobalt":
        full = ["nid" + n.zfill(5) for n in libe]
    elif sched and first != "Cobalt" and not any("." in n for n in nodes):
        full = [n + case["domain"] for n in libe]
    if sched == "Cobalt" and first != "Cobalt":
        full = []
        libe = []
    res.add_comm_info(full)
    left = [n for n in nodes if n not in libe] if case["dedicated"] and len(nodes) > 1 else nodes
    got = list(res.glob_resources.global_nodelist)
    require(got == left, lambda: f"with libEnsemble on {full} (dedicated: {case['dedicated']}) the nodes are {got} instead of {left}: {ctx()}", "nodes running libEnsemble")
    # partition over workers uses all of the nodes
    rec.label("from " + first)
    if len(want) > 1:
        rec.label("several sources")
    rich = len(want) > 1 or (first == "Slurm" and (len(case["groups"]) > 1 or any(g["width"] or g["suf"] for g in case["groups"]))) or bool(launch) or bool(case["domain"])
    rec.nontrivial(len(nodes) >= 3 and rich)


TARGETS = [Target("nodelists", strategy, run, 8000, 200000)]
