"""C23: the way workers are run does not change the result."""
import os
import shutil
import tempfile

import numpy as np

from vlib import real
from vlib.core import Target, Violation, require

TECHNIQUE = "property-based testing: the same generated ensemble run with threads, forked processes, TCP clients and MPI ranks, compared with each other and with a direct computation"
RULE = (
    "Generated ensembles whose generator computes each batch from all results so far by an order-independent rule (persistent "
    "in batch mode with the generator leaving or the run being stopped at a batch boundary; ordinary generators in batch mode), "
    "with vectors, strings, flags, fields, H0 and persis_info counters, run by the real libE() in several modes (threads, forked "
    "processes, TCP clients, MPI ranks; generator on a worker or on the manager). The set of points with all user values must be "
    "the one computed directly without libEnsemble, in every mode; exit flags and the generator's persis_info must agree; with "
    "one worker the user fields must agree row by row. Non-trivial: at least two batches and two modes were run."
)
ASSUMPTIONS = [
    "the generator's rule does not depend on the order in which results arrive",
    "TCP workers are started as local processes by worker_cmd instead of over ssh",
]
CAP_S = 200

SIM_OUT = [("f", int), ("vec", float, (3,)), ("txt", "U8"), ("ok", bool)]
GEN_OUT = [("x", float, (2,)), ("k", int), ("name", "U6")]


def shard_setup():
    import logging

    logging.raiseExceptions = False
    import libensemble.libE  # noqa: F401


def point(case, batch, j, state):
    a, b = case["coef"]
    v = (a * state + b * (j + 1) + 7 * batch) % 9973
    return [v / 8.0, float(j) - v], batch * 1000 + j, f"n{v % 977}"


def evaluate(x, k):
    f = int(round(x[0] * 8.0)) * 3 + int(k) % 11
    return f, [x[0] + 1, x[1] * 2, float(f)], f"t{f % 9999}", f % 2 == 0


def fold(fs):
    """Order-independent summary of all results so far."""
    return int(np.sum(np.asarray(fs, dtype=int) % 4099)) % 9973


def batch_array(case, b, state):
    n = case["batches"][b]
    out = np.zeros(n, dtype=GEN_OUT)
    for j in range(n):
        out["x"][j], out["k"][j], out["name"][j] = point(case, b, j, state)
    return out


def sim_f(H, persis_info, specs, libE_info):
    out = np.zeros(len(H), dtype=SIM_OUT)
    for i in range(len(H)):
        out["f"][i], out["vec"][i], out["txt"][i], out["ok"][i] = evaluate(H["x"][i], H["k"][i])
    if isinstance(persis_info, dict):
        persis_info["sims"] = persis_info.get("sims", 0) + len(H)
        return out, persis_info
    return out


def h0_array(case):
    n = case["h0"]
    if not n:
        return None
    H0 = np.zeros(n, dtype=GEN_OUT + SIM_OUT + [("sim_id", int), ("sim_started", bool), ("sim_ended", bool)])
    for i in range(n):
        H0["x"][i] = [i / 8.0, -1.0]
        H0["k"][i] = 900000 + i
        H0["name"][i] = f"h{i}"
        H0["f"][i], H0["vec"][i], H0["txt"][i], H0["ok"][i] = evaluate(H0["x"][i], H0["k"][i])
        H0["sim_id"][i] = i
    H0["sim_started"] = H0["sim_ended"] = True
    return H0


def build(case):
    from libensemble.alloc_funcs.give_sim_work_first import give_sim_work_first
    from libensemble.alloc_funcs.start_only_persistent import only_persistent_gens
    from libensemble.message_numbers import EVAL_GEN_TAG, FINISHED_PERSISTENT_GEN_TAG, PERSIS_STOP, STOP_TAG
    from libensemble.tools.persistent_support import PersistentSupport

    nb = len(case["batches"])

    def pgen(H, persis_info, specs, libE_info):
        ps = PersistentSupport(libE_info, EVAL_GEN_TAG)
        fs = list(H["f"]) if len(H) else []
        tag = None
        b = 0
        while tag not in (STOP_TAG, PERSIS_STOP) and b < nb:
            out = batch_array(case, b, fold(fs))
            b += 1
            persis_info["state"] = fold(fs)
            if case["poll"]:
                ps.send(out)
                while tag is None:
                    tag, work, calc_in = ps.recv(blocking=False)
                got, tag = (tag, calc_in), (tag if tag in (STOP_TAG, PERSIS_STOP) else None)
                calc_in = got[1]
            else:
                tag, work, calc_in = ps.send_recv(out)
            if calc_in is not None and len(calc_in):
                fs += list(calc_in["f"])
        persis_info["batches"] = b
        persis_info["seen"] = len(fs)
        return None, persis_info, FINISHED_PERSISTENT_GEN_TAG

    def gen(H, persis_info, specs, libE_info):
        b = int(H["k"][H["k"] < 900000].max()) // 1000 + 1 if np.any(H["k"] < 900000) else 0
        b = min(b, nb - 1) if b < nb else b
        if b >= nb:
            return np.zeros(0, dtype=GEN_OUT), persis_info
        persis_info["gens"] = persis_info.get("gens", 0) + 1
        return batch_array(case, b, fold(list(H["f"]))), persis_info

    H0 = h0_array(case)
    sim_specs = {"sim_f": sim_f, "in": ["x", "k"], "out": SIM_OUT}
    gen_specs = {"gen_f": pgen if case["persis"] else gen, "in": ["f", "k"], "out": GEN_OUT}
    if case["persis"]:
        gen_specs["persis_in"] = ["f", "k", "x"]
        gen_specs["in"] = ["f"]
        alloc_specs = {"alloc_f": only_persistent_gens, "user": {}}
    else:
        alloc_specs = {"alloc_f": give_sim_work_first, "user": {"batch_mode": True, "num_active_gens": 1}}
    total = sum(case["batches"])
    exit_criteria = {"sim_max": total}
    if case["persis"]:
        exit_criteria = {"sim_max": total + 1000} if case["own"] else {"sim_max": sum(case["batches"][: case["stop"] % nb + 1])}
    else:
        exit_criteria = {"sim_max": sum(case["batches"][: case["stop"] % nb + 1])}
    nw = case["nw"]
    persis_info = {w: {"id": w} for w in range(0, nw + 1)}
    libE_specs = {"gen_on_manager": case["gom"], "disable_log_files": True, "safe_mode": case["safe"]}
    return sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, libE_specs, H0


def expected(case):
    H0 = h0_array(case)
    rows, fs = [], []
    if H0 is not None:
        for r in H0:
            rows.append((tuple(r["x"]), int(r["k"]), str(r["name"]), int(r["f"]), tuple(r["vec"]), str(r["txt"]), bool(r["ok"])))
            fs.append(int(r["f"]))
    nb = len(case["batches"])
    upto = nb if case["persis"] and case["own"] else case["stop"] % nb + 1
    for b in range(upto):
        new = []
        st_ = fold(fs)
        for j in range(case["batches"][b]):
            x, k, name = point(case, b, j, st_)
            f, vec, txt, ok = evaluate(x, k)
            rows.append((tuple(x), k, name, f, tuple(vec), txt, ok))
            new.append(f)
        fs += new
    return rows


def rows_of(H):
    return [(tuple(r["x"].tolist()), int(r["k"]), str(r["name"]), int(r["f"]), tuple(r["vec"].tolist()), str(r["txt"]), bool(r["ok"])) for r in H]


def run(case, rec):
    want = expected(case)
    res = {}
    base = tempfile.mkdtemp(prefix="verif_c23_")
    try:
        for mode in case["modes"]:
            for gom in (False, True) if case["both"] else (case["gom"],):
                if case["persis"] and not gom and case["nw"] < 2:
                    gom = True
                key = f"{mode}{' gen on manager' if gom else ''}"
                if key in res:
                    continue
                c = dict(case, gom=gom)
                try:
                    r = real.run_mode(mode, "checks.c23:build", c, case["nw"], os.path.join(base, key.replace(" ", "_")), timeout=60)
                except real.TimedOut as e:
                    raise Violation(f"the run with {key} had not ended after 60 s: {e}", "run does not end")
                require(r["exc"] is None, lambda: f"the run with {key} failed: {r['exc']}\n{r['text'][-1500:]}", f"run fails with {mode}")
                res[key] = r
                rec.label(key)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    flags = {k: r["flag"] for k, r in res.items()}
    require(len(set(flags.values())) == 1, lambda: f"exit flags differ: {flags}", "exit flags differ")
    goms = []
    for k, r in res.items():
        H = r["H"]
        done = H[H["sim_ended"]]
        got = rows_of(done)
        require(
            sorted(got) == sorted(want),
            lambda: f"with {k} the evaluated points are not the expected ones\nexpected {sorted(want)}\nfound    {sorted(got)}",
            "set of points with their values",
        )
        require(list(H["sim_id"]) == list(range(len(H))), lambda: f"with {k} sim_id is {H['sim_id']}", "sim_id")
        if case["nw"] == 1:
            require(got == want, lambda: f"one worker ({k}): the rows are not in the expected order\n{got}\n{want}", "row order with one worker")
        pi = r["persis_info"]
        gw = 0 if "manager" in k else None
        if case["persis"]:
            ent = [e for w, e in pi.items() if isinstance(e, dict) and "batches" in e]
            require(len(ent) == 1, lambda: f"with {k} persis_info is {pi}", "persis_info of the generator")
            if gw == 0:
                require("batches" in pi[0], lambda: f"with {k} persis_info is {pi}", "persis_info of the generator on the manager")
            goms.append((k, {a: b for a, b in ent[0].items() if a in ("batches", "state")}))
        nsims = sum(e.get("sims", 0) for e in pi.values() if isinstance(e, dict))
        require(nsims == len(want) - case["h0"], lambda: f"with {k} the workers count {nsims} simulations, expected {len(want) - case['h0']}: {pi}",
                "simulations counted in persis_info")
    for k, e in goms[1:]:
        require(e == goms[0][1], lambda: f"persis_info of the generator differs: {goms}", "persis_info of the generator differs")
    rec.nontrivial(len(want) - case["h0"] > case["batches"][0] and len(res) > 1)
    if case["nw"] == 1:
        rec.label("one worker")


def strategy(modes):
    from hypothesis import strategies as st

    def fin(c):
        if c["persis"] and c["nw"] == 1:
            c["gom"] = True
        return c

    return st.fixed_dictionaries(
        {
            "nw": st.sampled_from([1, 2, 3]),
            "batches": st.lists(st.integers(1, 7), min_size=2, max_size=5),
            "coef": st.tuples(st.integers(1, 50), st.integers(1, 500)).map(list),
            "persis": st.booleans(),
            "own": st.booleans(),
            "poll": st.booleans(),
            "stop": st.sampled_from([1, 2, 3, 4, 0]),
            "gom": st.booleans(),
            "both": st.booleans(),
            "safe": st.booleans(),
            "h0": st.sampled_from([0, 0, 1, 3]),
            "modes": st.sampled_from(modes).map(lambda s: s.split()),
        }
    ).map(fin)


TARGETS = [
    Target("local", lambda: strategy(("threads local",)), run, 120, 2400, shrink_s=40),
    Target("tcp", lambda: strategy(("tcp threads", "tcp local")), run, 32, 800, shrink_s=40),
    Target("mpi", lambda: strategy(("mpi threads",)), run, 40, 600, max_shards=2, shrink_s=40),
]
