"""Pools of resource sets made by the real code from a generated machine."""
import os

from hypothesis import strategies as st


def machine(max_nodes=5, max_per_node=6, groups=True):
    """nodes, resource sets, cores and GPUs of a machine."""

    def build(t):
        nodes, per, odd, gpus, cores, smt, gpg = t
        rsets = max(1, nodes * per - odd % (nodes * per))
        c = {"nodes": nodes, "rsets": rsets, "gpus": gpus, "cores": cores, "smt": smt}
        if gpg and groups and rsets % nodes == 0:
            k = rsets // nodes
            divs = [d for d in range(1, k + 1) if k % d == 0]
            d = divs[gpg % len(divs)]
            if gpus >= k and d < k:
                c["gpus_per_group"] = d
        return c

    return st.tuples(
        st.integers(1, max_nodes), st.integers(1, max_per_node), st.sampled_from([0, 0, 0, 1, 2, 3]),
        st.sampled_from([0, 0, 1, 2, 3, 4, 6, 8]), st.sampled_from([1, 2, 3, 4, 7, 8, 16, 64]), st.sampled_from([1, 2]),
        st.sampled_from([0, 0, 0, 1, 2, 3]),
    ).map(build)


def node_names(c):
    return [f"n{i:02d}" for i in range(c["nodes"])]


def make_resources(c, tmp, **extra):
    """A Resources object for machine c; the node list is given in a file."""
    from libensemble.resources.resources import Resources

    path = os.path.join(tmp, "nodes")
    with open(path, "w") as f:
        f.write("".join(n + "\n" for n in c.get("names") or node_names(c)))
    spec = {
        "resource_info": {"node_file": path, "cores_on_node": (c["cores"], c["cores"] * c["smt"])},
        "num_resource_sets": c["rsets"],
    }
    if c.get("gpus_per_group"):
        spec["gpus_per_group"] = c["gpus_per_group"]
    spec.update(extra.pop("libE_specs", {}))
    plat = {"gpus_per_node": c["gpus"], "runner_name": c.get("runner", "mpich")}
    plat.update(extra.pop("platform", {}))
    src = c.get("src", "platform")
    if src != "platform":  # resource_info says it; the platform says nothing, or something else
        spec["resource_info"]["gpus_on_node"] = plat.pop("gpus_per_node")
        if src == "both":
            plat["gpus_per_node"] = c["gpus"] + 2
            plat["cores_per_node"], plat["logical_cores_per_node"] = c["cores"] + 1, 2 * c["cores"] + 2
    return Resources(spec, platform_info=plat, top_level_dir=tmp)


def layout(c):
    """(node, slot, group, gpu) of every resource set, from the documented rules alone; node is None if it spans several."""
    n, r = c["nodes"], c["rsets"]
    out = []
    if r >= n:
        k, m = divmod(r, n)
        grp = 0
        for i in range(n):
            cnt = k + 1 if i < m else k
            for j in range(cnt):
                gpg = c.get("gpus_per_group")
                if j == 0 or (gpg and j % gpg == 0):
                    grp += 1
                slot = j % gpg if gpg else j
                out.append({"nodes": [i], "pos": j, "slot": slot, "group": grp, "gpu": slot < c["gpus"]})
    else:
        k, m = divmod(n, r)
        at = 0
        for j in range(r):
            cnt = k + 1 if j < m else k
            out.append({"nodes": list(range(at, at + cnt)), "pos": 0, "slot": 0, "group": j + 1, "gpu": c["gpus"] > 0})
            at += cnt
    return out
