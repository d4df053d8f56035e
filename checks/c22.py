"""C22: a previous history given as H0 is preserved and continued."""
import numpy as np
from hypothesis import strategies as st

from vlib import ens, work
from vlib.core import Target, require
from vlib.judge import clean_run
from vlib.work import fval, xval

TECHNIQUE = "property-based testing: generated previous histories in many forms continued by whole runs, rows compared with the history given; metamorphic: a run split in two with H0 against one run"
RULE = (
    "preserve: histories with any subset of the bookkeeping fields, narrower or wider types, other byte orders and "
    "layouts (views with gaps, strides, read-only), fewer components, unstarted points and own fields are given as H0 to "
    "runs with the supplied allocation functions. At every allocation call and at the end the first rows must equal H0 "
    "(besides what the run itself must change: results of points it evaluates, being given back to the generator), no "
    "ended point may be given to a simulator, all unstarted ones only once, missing bookkeeping is as documented, the "
    "sim_ids go on, new points hold the values returned, and the caller's array is unchanged. split: a generator and a "
    "simulator that depend only on the history run once for N points, and with stops in between, continued with H0 "
    "(as returned, through a file, only some fields): the points, values and order must agree. Non-trivial: H0 has at "
    "least two rows and at least two new points were evaluated; for split, both parts evaluated points."
)
ASSUMPTIONS = [
    "the sim_ids of H0, where given, are 0, 1, ... (libEnsemble uses them as row numbers)",
    "where types differ, values (not types) of H0 must be kept: the field takes a type that holds both",
]

LIFE = {
    "sim_id": int, "sim_started": bool, "sim_ended": bool, "gen_informed": bool, "sim_worker": int, "gen_worker": int,
    "sim_started_time": float, "sim_ended_time": float, "gen_started_time": float, "gen_ended_time": float,
    "gen_informed_time": float, "cancel_requested": bool, "kill_sent": bool,
}  # fmt: skip
TYPES = {
    "x": [(float, (2,)), ("f4", (2,)), (">f8", (2,)), (float, (2,))],
    "tag": [int, "i1", "i2", ">i4", float, "u4", bool],
    "name": ["U5", "U2", "U1", "U9", ">U4"],
    "f": [float, "f4", ">f8", int, "i2"],
    "fvec": [(float, (3,)), (float, (2,)), (float, (1,)), ("f4", (3,)), (int, (3,)), (float, (4,))],
    "msg": ["U6", "U2", "U12"],
    "done": [bool, int],
}


def shard_setup():
    ens.quiet_logs()


@st.composite
def h0_form(draw):
    n = draw(st.integers(1, 6))
    cols = {"x": draw(st.integers(0, 3))}
    for f in ("tag", "name", "f", "fvec", "msg", "done"):
        if draw(st.booleans()):
            cols[f] = draw(st.integers(0, len(TYPES[f]) - 1))
    life = draw(
        st.sampled_from(
            [[], ["sim_id"], ["sim_started"], ["sim_ended"], ["sim_started", "sim_ended"], ["sim_id", "sim_started"],
             ["sim_id", "sim_started", "sim_ended", "gen_informed"], list(LIFE), list(LIFE), [f for f in LIFE if f != "sim_id"]]
        )
    )  # fmt: skip
    return {
        "n": n,
        "cols": cols,
        "life": draw(st.permutations(life)),
        "ended": draw(st.one_of(st.just(63), st.integers(0, 63))),
        "informed": draw(st.integers(0, 63)),
        "own": draw(st.lists(st.sampled_from(["old", "label", "mat", "raw"]), max_size=2, unique=True)),
        "layout": draw(st.sampled_from(["plain", "plain", "gaps", "stride", "readonly", "aligned", "rec"])),
        "big": draw(st.sampled_from([False, False, True])),
    }


OWN = {"old": (float, ()), "label": ("U4", ()), "mat": (int, (2, 2)), "raw": ("S3", ())}


def build_H0(h):
    """The array and, per row, whether it counts as ended."""
    n = h["n"]
    dt = []
    for f, k in h["cols"].items():
        t = TYPES[f][k]
        dt.append((f, *t) if isinstance(t, tuple) else (f, t))
    life = h["life"]
    dt += [(f, LIFE[f] if not h["big"] or LIFE[f] is bool else np.dtype(LIFE[f]).newbyteorder(">")) for f in life]
    dt += [(f, *OWN[f]) for f in h["own"]]
    has_state = "sim_started" in life or "sim_ended" in life
    ended = [bool(h["ended"] >> i & 1) if has_state else True for i in range(n)]
    full = np.dtype(dt, align=h["layout"] == "aligned")
    if h["layout"] == "gaps":
        full = np.dtype([("gap0", "i2")] + dt[:1] + [("gap1", "U3")] + dt[1:] + [("gap2", "i2")])
    H0 = np.zeros(n * (2 if h["layout"] == "stride" else 1), dtype=full)
    if h["layout"] == "gaps":
        H0["gap0"] = H0["gap2"] = 3
        H0 = H0[[d[0] for d in dt]]
    if h["layout"] == "stride":
        H0 = H0[::2]
    for i in range(n):
        for f in h["cols"]:
            if f == "x":
                H0["x"][i] = xval(i)
            elif f == "tag":
                H0["tag"][i] = (10 * i) % 120
            elif f == "name":
                H0["name"][i] = f"p{i}"
            elif ended[i]:
                v = fval(xval(i))
                if f == "f":
                    H0["f"][i] = int(v) if H0["f"].dtype.kind == "i" else v
                elif f == "fvec":
                    H0["fvec"][i] = [int(v) + 1 + c for c in range(H0["fvec"].shape[1])]
                elif f == "msg":
                    H0["msg"][i] = f"m{i}"
                else:
                    H0["done"][i] = True
        if "sim_id" in life:
            H0["sim_id"][i] = i
        for f in ("sim_started", "sim_ended"):
            if f in life:
                H0[f][i] = ended[i]
        if "gen_informed" in life:
            H0["gen_informed"][i] = ended[i] and bool(h["informed"] >> i & 1)
        if "sim_worker" in life:
            H0["sim_worker"][i] = 2 if ended[i] else 0
            H0["gen_worker"][i] = 1
            H0["gen_started_time"][i] = 4.0
            H0["gen_ended_time"][i] = 5.0 + i
            H0["sim_started_time"][i] = 7.0 if ended[i] else np.inf
            H0["sim_ended_time"][i] = 8.0 + i if ended[i] else 0
            H0["gen_informed_time"][i] = 20.0 + i if H0["gen_informed"][i] else np.inf
        for f in h["own"]:
            H0[f][i] = {"old": i * 1.5, "label": f"r{i}", "mat": [[i, 1], [2, 3]], "raw": b"\xff%d" % i}[f]
    if h["layout"] == "readonly":
        H0.flags.writeable = False
    if h["layout"] == "rec":
        H0 = H0.view(np.recarray)
    return H0, np.array(ended)


@st.composite
def preserve_strategy(draw):
    c = draw(work.supplied_strategy(exits=("sim_max", "sim_max", "gen_max", "both"), H0=None, cancel=False))
    for g in c["gens"] if c["alloc"] == "opg" else [c["gens"]]:
        for b in g:
            b.update(few=False, ids=False, upd=[], cancel=0)
            b["n"] = max(1, b["n"])
    if c.get("popts") and c["popts"]["ret"] == "upd":
        c["popts"]["ret"] = "H"
    for s in c["sims"]:
        s.update(vec=3, few=False, none=False)
    if "sim_max" in c["exit"] and draw(st.sampled_from([False] * 9 + [True])):
        c["exit"]["sim_max"] = 0
    h = draw(h0_form())
    c["pi_extra"] = {"next_to_give": 0} if c["alloc"] in ("fast", "one") else {}
    if c["alloc"] == "pregen":
        h["life"] = list(dict.fromkeys(h["life"] + ["sim_started", "sim_ended"]))
        for f in ("f", "fvec", "msg", "done"):
            h["cols"].setdefault(f, 0)
    return {"case": c, "h": h, "rsets": draw(st.sampled_from([False, False, True]))}


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return a.shape == b.shape and np.array_equal(a.astype(float), b.astype(float), equal_nan=True)
    return np.array_equal(a, b)


def preserve(case, rec):
    c, h = case["case"], case["h"]
    H0, ended = build_H0(h)
    n = len(H0)
    before = H0.copy()
    if c["alloc"] == "opg" and len(H0):
        c = dict(c, gen_in=["x", "sim_id"])
    gen_out = [("resource_sets", int)] if case["rsets"] and c["alloc"] not in ("pregen",) else []
    run = work.run_supplied(c, {}, H0=H0, gen_out=gen_out)
    clean_run(run, "a run with a good H0")
    require(H0.dtype == before.dtype and all(eq(H0[f], before[f]) for f in before.dtype.names), "the caller's H0 was changed")
    H = np.asarray(run.H)
    own = set(before.dtype.names)
    known = set(LIFE) | set(TYPES) | own | {"priority", "resource_sets"} | {f"gnew{i}" for i in (1, 2)} | {
        f"extra{i}" for i in (1, 2)
    }
    require(set(H.dtype.names) <= known, lambda: f"unknown fields {set(H.dtype.names) - known} in the history", "unknown fields")
    states = [(e.d["H"], "at an allocation call") for e in run.of("alloc_in")] + [(H, "at the end")]
    sent = {}
    for e in run.of("msend"):
        b = e.d["body"]
        if isinstance(b, dict) and b.get("tag") == 1 and "libE_info" in b:
            for r in b["libE_info"]["H_rows"]:
                sent[int(r)] = sent.get(int(r), 0) + 1
    for r, k in sent.items():
        require(r >= n or not ended[r], lambda: f"point {r} of H0 has ended and is given to a simulator\n{run.tail(8)}", "again")
        require(k == 1, lambda: f"point {r} is given to simulators {k} times", "twice")
    out = {"f", "fvec", "msg", "done", "sim_started", "sim_ended", "sim_worker", "sim_started_time", "sim_ended_time"}
    for S, when in states:
        require(len(S) >= n, lambda: f"{len(S)} rows {when}, H0 has {n}", "rows of H0 missing")
        for f in own:
            a, b = S[f][:n], before[f]
            if f in ("gen_informed", "gen_informed_time"):
                was = before["gen_informed"]
                require(bool((S["gen_informed"][:n] | ~was).all()), "a point of H0 is no longer gen_informed")
                continue
            rows = np.ones(n, dtype=bool)
            if f in out:
                rows = ended
            a, b = a[rows], b[rows]
            if a.ndim == 2 and a.shape[1] > b.shape[1]:
                require(not a[:, b.shape[1] :].any(), lambda: f"new components of {f} of H0 are not zero {when}", "components")
                a = a[:, : b.shape[1]]
            require(
                eq(a, b),
                lambda: f"{f} of the rows of H0 {when} is {a.tolist()}, and was {b.tolist()}",
                f"{f} of H0 changed" if f in LIFE else "a field of H0 changed",
            )
        require(
            np.array_equal(S["sim_id"], np.arange(len(S))), lambda: f"sim_ids {when}: {S['sim_id'].tolist()}", "sim_ids do not follow"
        )
        st_, en = S["sim_started"][:n], S["sim_ended"][:n]
        require(st_[ended].all() and en[ended].all(), lambda: f"ended points of H0 {ended}: started {st_}, ended {en}", "state")
        loose = [i for i in range(n) if not ended[i] and (en[i] and not st_[i] or st_[i] and i not in sent)]
        require(not loose, lambda: f"points {loose} of H0 are marked, though not given out", "state of unstarted points")
        if gen_out:
            require((S["resource_sets"][:n] == 1).all(), lambda: f"resource_sets of H0: {S['resource_sets'][:n]}", "resource_sets")
    # new points hold what was returned
    nan = {}
    for e in run.of("ret"):
        if e.d["role"] == "sim":
            o = e.d["out"][0] if isinstance(e.d["out"], tuple) else e.d["out"]
            for r, v in zip(e.d["rows"], o):
                nan[int(r)] = bool(np.isnan(v["f"]))
    for j in range(len(H)):
        if j >= n:
            i = int(round(float(H["x"][j][1])))
            x = xval(i)
            require(eq(H["x"][j], x), lambda: f"x of new point {j} is {H['x'][j]}, returned was {x}", "x of a new point")
            require(H["name"][j] == f"p{i}", lambda: f"name of new point {j} is {H['name'][j]!r}, not p{i}", "name of a new point")
            t = H["tag"][j]
            require(t == int(t) and 10 * i <= t < 10 * i + 400, lambda: f"tag of new point {j} is {t}", "tag of a new point")
        if H["sim_ended"][j] and (j >= n or not ended[j]):
            x = H["x"][j]
            v = fval(x)
            if not nan[j]:
                require(abs(H["f"][j] - v) < 1e-6, lambda: f"f of point {j} is {H['f'][j]}, returned was {v}", "f of a new point")
                w = [v + 1 + k for k in range(3)]
                require(
                    np.allclose(H["fvec"][j][:3], w, atol=1e-6), lambda: f"fvec of point {j}: {H['fvec'][j]}, returned {w}", "fvec"
                )
            require(H["msg"][j] == f"m{int(x[1])}", lambda: f"msg of point {j} is {H['msg'][j]!r}", "msg of a new point")
            require(bool(H["done"][j]), "done of a new point")
    if c["exit"].get("sim_max") == 0:
        require(not sent and len(H) >= n, "points were evaluated though sim_max is 0")
        rec.label("sim_max 0")
    new = len([r for r in sent if r >= n or not ended[r]])
    # (the limit counts the new evaluations)
    if "sim_max" in c["exit"] and run.flag == 0 and not c["popts" if "popts" in c else "user"].get("own"):
        m = int(H["sim_ended"].sum()) - int(ended.sum())
        if set(c["exit"]) == {"sim_max"} and c["alloc"] not in ("pregen", "opg"):
            require(m >= c["exit"]["sim_max"], lambda: f"{m} points evaluated, sim_max is {c['exit']['sim_max']}", "sim_max")
    rec.label(c["alloc"])
    rec.label("layout:" + h["layout"])
    rec.label("life:%d fields" % len(h["life"]))
    if any(k for f, k in h["cols"].items()):
        rec.label("other types")
    if not ended.all():
        rec.label("unstarted points")
    rec.nontrivial(n >= 2 and new >= 2, interest=new)


# ------------------------------------------------------------------ split runs


@st.composite
def split_strategy(draw):
    alloc = draw(st.sampled_from(["gswf", "gswf", "opg", "opg", "fast", "one"]))
    b = draw(st.integers(1, 5))
    parts = draw(st.lists(st.integers(1, 4), min_size=2, max_size=4))
    return {
        "alloc": alloc,
        "b": b,
        "parts": parts,
        "off": draw(st.integers(0, 4)),
        "nw": draw(st.integers(1, 4)),
        "delays": draw(work.delays),
        "delays2": draw(work.delays),
        "rule": draw(st.integers(0, 3)),
        "via": draw(st.lists(st.sampled_from(["same", "file", "fields", "reorder", "gaps"]), min_size=3, max_size=3)),
        "gom": draw(st.sampled_from([False, False, True])),
        "prio": draw(st.booleans()),
    }


def next_points(case, X, F):
    """The next batch, from all results so far (in order)."""
    b, rule = case["b"], case["rule"]
    n = len(F)
    out = np.zeros(b, dtype=[("x", float, (2,)), ("tag", int), ("name", "U5")] + ([("priority", float)] if case["prio"] else []))
    best = float(np.min(F)) if n else 0.5
    for j in range(b):
        if rule == 0:
            x = xval(n + j)
        elif rule == 1:
            x = [round(best * 0.5 + j, 6), float(n + j)]
        elif rule == 2:
            x = [round(float(np.sum(F)) * 0.01 % 5 - j, 6), float(n)]
        else:
            k = int(np.argmin(F)) if n else 0
            x = [round((X[k][0] if n else 1.0) * 0.9 + 0.1 * j, 6), float((X[k][1] if n else 0.0) + 1)]
        out["x"][j] = x
        out["tag"][j] = n + j
        out["name"][j] = f"q{n + j}"
        if case["prio"]:
            out["priority"][j] = (7 * j + n) % 3
    return out


def split_part(case, sim_max, H0, delays):
    from libensemble.message_numbers import FINISHED_PERSISTENT_GEN_TAG

    persis = case["alloc"] == "opg"
    c = {
        "alloc": case["alloc"], "nw": case["nw"] + (1 if persis else 0), "delays": delays, "sims": [], "gens": [],
        "user": {"batch_mode": True, "num_active_gens": 1} if case["alloc"] == "gswf" else {"init_sample_size": case["b"]} if persis
        else {"num_active_gens": 1} if case["alloc"] == "fast" else {}, "gom": case["gom"], "exit": {"sim_max": sim_max},
        "gen_in": ["x", "f", "sim_id", "sim_ended"], "H0": None,
    }  # fmt: skip
    if case["alloc"] in ("fast", "one"):
        c.update(nw=1, gom=False, pi_extra={"next_to_give": 0})  # (these do not wait for all results)

    def sim(run, k, H, persis_info, specs, libE_info):
        out = np.zeros(len(H), dtype=[("f", float), ("msg", "U6")])
        for j in range(len(H)):
            out["f"][j] = fval(H["x"][j])
            out["msg"][j] = f"m{int(H['x'][j][1])}"
        return out, persis_info

    def gen(run, k, H, persis_info, specs, libE_info):
        if len(H):
            o = np.argsort(H["sim_id"])
            return next_points(case, H["x"][o], H["f"][o]), persis_info
        return next_points(case, [], []), persis_info

    def pgen(run, k, H, persis_info, specs, libE_info):
        from libensemble.tools.persistent_support import PersistentSupport
        from vlib.ens import GEN, PERSIS_STOP, STOP_TAG, RecPS

        ps = RecPS(run, PersistentSupport(libE_info, GEN), libE_info["workerID"], None)
        ps.role = "gen"
        known = {int(r["sim_id"]): (r["x"].copy(), float(r["f"])) for r in H if r["sim_ended"]}
        tag = None
        while tag not in (STOP_TAG, PERSIS_STOP):
            ids = sorted(known)
            ps.send(next_points(case, [known[i][0] for i in ids], [known[i][1] for i in ids]))
            tag, work_, calc_in = ps.recv()
            if calc_in is not None and len(calc_in):
                for r in calc_in:
                    known[int(r["sim_id"])] = (r["x"].copy(), float(r["f"]))
        return None, persis_info, FINISHED_PERSISTENT_GEN_TAG

    return work.run_supplied(
        c, {}, sim=sim, gen=pgen if persis else gen, H0=H0, gen_out=[("priority", float)] if case["prio"] else []
    )


def pass_on(H, via):
    H = np.asarray(H)
    if via == "file":
        import io

        f = io.BytesIO()
        np.save(f, H)
        f.seek(0)
        return np.load(f)
    if via == "fields":
        keep = [f for f in ("x", "tag", "name", "priority", "f", "msg", "sim_id", "sim_started", "sim_ended", "gen_informed")
                if f in H.dtype.names]
        out = np.zeros(len(H), dtype=[(f, H.dtype[f]) for f in keep])
        for f in keep:
            out[f] = H[f]
        return out
    if via == "reorder":
        names = sorted(H.dtype.names, reverse=True)
        out = np.zeros(len(H), dtype=[(f, H.dtype[f]) for f in names])
        for f in names:
            out[f] = H[f]
        return out
    if via == "gaps":
        return H[[f for f in H.dtype.names if f not in ("gen_informed_time", "kill_sent", "sim_ended_time")]]
    return H


def split(case, rec):
    b, k = case["b"], case["parts"]
    # gswf may stop within a batch: points not yet evaluated are then in H0
    off = case["off"] % b if case["alloc"] == "gswf" else 0
    total = b * sum(k)
    whole = split_part(case, total, None, case["delays"])
    clean_run(whole, "the whole run")
    H0 = None
    n_ended = []
    for i, m in enumerate(k):
        want = b * m
        if i == 0:
            want = max(1, want - off)
        elif H0 is not None and i == len(k) - 1:
            want = total - int(H0["sim_ended"].sum())
            if want < 1:
                break
        part = split_part(case, want, H0, case["delays"] if i % 2 else case["delays2"])
        clean_run(part, f"part {i + 1} of the split run")
        G = np.asarray(part.H)
        n_ended.append(int(G["sim_ended"].sum()) - (int(H0["sim_ended"].sum()) if H0 is not None else 0))
        H0 = pass_on(G, case["via"][i % 3])
    H = np.asarray(whole.H)
    G = np.asarray(part.H)
    n = min(len(H), len(G))
    require(n >= total - off, lambda: f"{len(H)} and {len(G)} points, at least {total} are expected", "too few points")
    for f in ("x", "tag", "name", "sim_id"):
        require(
            eq(H[f][:n], G[f][:n]),
            lambda: f"{f} in one run: {H[f][:n].tolist()}\nin parts {n_ended}: {G[f][:n].tolist()}\n{part.tail(10)}",
            "the points of the split run differ",
        )
    both = H["sim_ended"][:n] & G["sim_ended"][:n]
    require(int(both.sum()) >= total, lambda: f"{both.sum()} points ended in both, expected {total}", "evaluated points")
    for f in ("f", "msg"):
        require(eq(H[f][:n][both], G[f][:n][both]), f"{f} of the split run differs")
    rec.label(case["alloc"])
    if off:
        rec.label("stop within a batch")
    rec.nontrivial(len([x for x in n_ended if x > 0]) >= 2, interest=len(n_ended))


TARGETS = [
    Target("preserve", preserve_strategy, preserve, 1600, 25000),
    Target("split", split_strategy, split, 500, 8000),
]
