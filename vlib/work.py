"""Workloads: scripted generators, simulators and allocation functions for runs on the Engine."""
import numpy as np
from hypothesis import strategies as st

from vlib.ens import GEN, PERSIS_STOP, SIM, STOP_TAG, RecPS, Run, UserError

VEC = 3
SIM_OUT = [("f", float), ("fvec", float, (VEC,)), ("done", bool), ("msg", "U6")]
GEN_OUT = [("x", float, (2,)), ("tag", int), ("name", "U5")]


def xval(i):
    return [round((i * 0.37) % 7.0 - 3.0, 6), float(i)]


def fval(x):
    return float(np.round(x[0] * 3.0 + x[1] * 0.25 + 0.125, 9))


def sim_rows(run, script, k, H):
    """What the simulator returns for its input rows: a function of x and of the call's script."""
    n = len(H)
    s = script[k % len(script)] if script else {}
    L = s.get("vec", VEC)
    dt = [("f", float), ("fvec", float, (L,)), ("done", bool), ("msg", "U6")]
    if s.get("few"):
        dt = dt[:1]
    if s.get("new"):
        dt.append((f"extra{s['new']}", int))
    out = np.zeros(n, dtype=dt)
    for j in range(n):
        x = H["x"][j]
        f = fval(x)
        if s.get("nan"):
            f = np.nan
        out["f"][j] = f
        if not s.get("few"):
            out["fvec"][j] = [f + 1 + c for c in range(L)]
            out["done"][j] = True
            out["msg"][j] = f"m{int(x[1])}"
        if s.get("new"):
            out[f"extra{s['new']}"][j] = int(x[1]) + 100
    return out


def pack(form, out, persis_info, status=None):
    if form == "pi":
        return out, persis_info
    if form == "st":
        return out, 33  # WORKER_DONE-like status
    if form == "str":
        return out, "status text"
    if form == "pist":
        return out, persis_info, 33
    if form == "pistr":
        return out, persis_info, "my status"
    return out


def make_sim(script):
    def sim(run, k, H, persis_info, specs, libE_info):
        s = script[k % len(script)] if script else {}
        if s.get("exc"):
            raise UserError(f"sim failure {k}")
        out = None if s.get("none") else sim_rows(run, script, k, H)
        return pack(s.get("form"), out, persis_info)

    return sim


def gen_batch(run, b, persis_info=None):
    """The array for one generator batch. run.total = points generated so far (with H0)."""
    n = b.get("n", 1)
    ids = list(range(run.total, run.total + n))
    dt = list(GEN_OUT)
    if b.get("few"):
        dt = dt[:1]
    if b.get("prio"):
        dt.append(("priority", float))
    if b.get("new"):
        dt.append((f"gnew{b['new']}", float))
    rsets = b.get("rsets")
    if rsets is not None:
        dt.append(("resource_sets", int))
    cols = b.get("cols") or {}
    for name in cols:
        dt.append((name, int))
    upd = sorted({u % run.total for u in b.get("upd", [])}) if run.total else []
    use_ids = bool(b.get("ids") or upd)
    cancel = b.get("cancel")
    if use_ids:
        dt.append(("sim_id", int))
        if cancel:
            dt.append(("cancel_requested", bool))
        order = ids + upd
        perm = b.get("perm", 0)
        if perm and len(order) > 1:
            p = perm % len(order)
            order = order[p:] + order[:p]
            if perm % 2:
                order = order[::-1]
    else:
        order = ids
    out = np.zeros(len(order), dtype=dt)
    for j, i in enumerate(order):
        out["x"][j] = xval(i)
        if not b.get("few"):
            out["tag"][j] = 10 * i + len(run.batches)
            out["name"][j] = f"p{i}"
        if b.get("prio"):
            out["priority"][j] = (i * 7 + b["prio"]) % 4
        if b.get("new"):
            out[f"gnew{b['new']}"][j] = i + 0.5
        if rsets is not None:
            out["resource_sets"][j] = rsets[j % len(rsets)]
        for name, vals in cols.items():
            out[name][j] = vals[i % len(vals)]
        if use_ids:
            out["sim_id"][j] = i
            if cancel:
                # a point once cancelled stays cancelled
                if (i + cancel) % 3 == 0:
                    run.cancelled.add(i)
                out["cancel_requested"][j] = i in run.cancelled
    run.total += n
    run.batches.append(ids)
    return out


def make_gen(script):
    """Ordinary generator: one batch of the script per call."""

    def gen(run, k, H, persis_info, specs, libE_info):
        b = script[k] if k < len(script) else {"n": 1, "cols": script[-1].get("cols") if script else None}
        if b.get("exc"):
            raise UserError(f"gen failure {k}")
        if not b.get("n") and not (b.get("upd") and run.total):
            b = dict(b, n=1)  # a generator that is alone must return something
        return pack(b.get("form"), gen_batch(run, b), persis_info)

    return gen


def make_persis_gen(script, opts):
    return make_persis_gens([script], opts)


def make_persis_gens(scripts, opts):
    """Persistent generator following a script of batches, then (optionally) leaving on its own.

    opts: ret: None|'H'|'none' (data on exit), own: leave by itself after the script, active: polls instead of waiting,
    final: extra send when told to stop
    """

    def gen(run, k, H, persis_info, specs, libE_info):
        from libensemble.message_numbers import FINISHED_PERSISTENT_GEN_TAG
        from libensemble.tools.persistent_support import PersistentSupport

        ps = RecPS(run, PersistentSupport(libE_info, GEN), libE_info["workerID"], None)
        ps.role = "gen"
        script = scripts[k % len(scripts)] if scripts else []
        tag = None
        i = 0
        pending = 0
        if opts.get("h0_recv") and len(H):
            pass
        while tag not in (STOP_TAG, PERSIS_STOP):
            if i < len(script):
                b = script[i]
                i += 1
                if b.get("exc"):
                    raise UserError(f"persistent gen failure {i}")
                if b.get("cancel_ids") is not None and run.total:
                    ids = sorted({c % run.total for c in b["cancel_ids"]})
                    run.cancelled.update(ids)
                    if ids:
                        ps.request_cancel_sim_ids(ids)
                out = gen_batch(run, b)
                ps.send(out)
                pending += len(out)
            elif opts.get("own"):
                tag = "own"
                break
            elif opts.get("filler"):
                ps.send(gen_batch(run, {"n": opts["filler"], "cols": script[-1].get("cols") if script else None,
                                        "rsets": script[-1].get("rsets") if script else None}))
            elif not opts.get("active"):
                ps.send(gen_batch(run, {"n": 0}))  # the manager waits for a word from the generator
            if opts.get("active"):
                tries = 0
                while True:
                    tag, work, calc_in = ps.recv(blocking=False)
                    if tag is not None:
                        break
                    tries += 1
                    if tries > opts.get("tries", 3) and i < len(script):
                        break
                    if tries > 500:
                        tag, work, calc_in = ps.recv()
                        break
            else:
                tag, work, calc_in = ps.recv()
        run.gen_left = True
        ret = opts.get("ret")
        out = None
        if ret == "H":
            out = gen_batch(run, {"n": opts.get("ret_n", 1)})
        elif ret == "upd" and run.total:
            out = gen_batch(run, {"n": 0, "upd": [0, 1]})
        if persis_info is not None:
            persis_info["left"] = run.ncalls["gen"]
        return out, persis_info, FINISHED_PERSISTENT_GEN_TAG

    return gen


def make_psim(script, opts):
    """Persistent simulator: evaluates, sends, waits for more rows until told to stop (or leaves with unsent results)."""

    def sim(run, k, H, persis_info, specs, libE_info):
        from libensemble.message_numbers import FINISHED_PERSISTENT_SIM_TAG
        from libensemble.tools.persistent_support import PersistentSupport

        ps = RecPS(run, PersistentSupport(libE_info, SIM), libE_info["workerID"], None)
        ps.role = "sim"
        n = 0
        out = None
        while True:
            s = dict(script[(k + n) % len(script)], none=False)
            out = sim_rows(run, [s], 0, H)
            if opts.get("leave") and n + 1 >= opts["leave"]:
                break  # results of these rows are returned on exit
            ps.send(out)
            tag, work, H = ps.recv()
            if tag in (STOP_TAG, PERSIS_STOP):
                if opts.get("ret"):
                    out = out.copy()
                    out["f"] += 1000.0  # corrected values for the rows evaluated last
                else:
                    out = None
                break
            n += 1
        if persis_info is not None and isinstance(persis_info, dict):
            persis_info["psim"] = k
        return out, persis_info, FINISHED_PERSISTENT_SIM_TAG

    return sim


# ------------------------------------------------------------------ allocation functions


def fuzz_alloc(run, case):
    """An allocation function that takes arbitrary (legal) decisions from the case."""
    dec = case["dec"] or [1]
    state = {"i": 0}

    def nxt(n):
        d = dec[state["i"] % len(dec)]
        state["i"] += 1
        return d % n if n > 0 else 0

    fsub = [["x"], ["x", "tag"], ["name", "x"], ["x", "tag", "name"], ["tag", "x"]]
    gsub = [["sim_id", "f"], ["f", "x", "sim_ended"], ["sim_id", "fvec", "msg", "x"], ["x", "sim_id"], ["done", "f", "tag"]]

    def alloc(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info):
        Work = {}
        persis = case.get("persis")
        ids = [int(i) for i in W["worker_id"]]
        act = {i: int(a) for i, a in zip(ids, W["active"])}
        ps = {i: int(a) for i, a in zip(ids, W["persis_state"])}
        if libE_info["sim_max_given"]:
            return Work, persis_info
        todo = [int(i) for i in np.flatnonzero(~H["sim_started"] & ~H["cancel_requested"])]
        gen_busy = any(a == GEN for a in act.values())
        gens_left = case["gens"][run.gens_started :] if not persis else ([] if run.gens_started else [1])
        idle = [i for i in ids if act[i] == 0]

        def sim_order(w, must=False):
            k = 1 + nxt(3)
            start = nxt(len(todo))
            rows = [todo[(start + j) % len(todo)] for j in range(min(k, len(todo)))]
            if not case.get("scramble"):
                rows = sorted(rows)
            for r in rows:
                todo.remove(r)
            Work[w] = {
                "H_fields": ["sim_id"] + fsub[nxt(len(fsub))],
                "persis_info": persis_info.get(w),
                "tag": SIM,
                "libE_info": {"H_rows": np.array(rows)},
            }

        def gen_order(w, feed=False):
            n = len(H)
            if feed:
                cand = [int(i) for i in np.flatnonzero(H["sim_ended"] & ~H["gen_informed"])]
                k = 1 + nxt(len(cand)) if cand else 0
                rows = cand[:k]
            elif persis and case.get("start_all"):
                rows = list(range(n))
            else:
                rows = [j for j in range(n) if nxt(2)]
            fields = gsub[nxt(len(gsub))]
            info = {"H_rows": np.array(rows, dtype=int)}
            if persis:
                info["persistent"] = True
            Work[w] = {"H_fields": fields, "persis_info": persis_info.get(w), "tag": GEN, "libE_info": info}
            if not feed:
                run.gens_started += 1

        for w in idle:
            if case.get("gom") and w == 0:
                simok = False
            else:
                simok = True
            if ps[w] == GEN:
                cand = np.any(H["sim_ended"] & ~H["gen_informed"])
                if cand and nxt(3):
                    gen_order(w, feed=True)
                continue
            d = nxt(4)
            if d == 3 and gens_left and not gen_busy:
                gen_order(w)
                gens_left = gens_left[1:]
                gen_busy = True
            elif d and todo and simok:
                sim_order(w)
        if not Work and not any(act.values()):
            simw = [w for w in idle if ps[w] == 0 and not (case.get("gom") and w == 0)]
            pg = [w for w in idle if ps[w] == GEN]
            if todo and simw:
                sim_order(simw[0])
            elif pg and np.any(H["sim_ended"] & ~H["gen_informed"]):
                gen_order(pg[0], feed=True)
            elif gens_left and [w for w in idle if ps[w] == 0]:
                gen_order([w for w in idle if ps[w] == 0][0])
            else:
                return Work, persis_info, 1
        return Work, persis_info, 0

    return alloc


# ------------------------------------------------------------------ strategies

delays = st.lists(st.integers(0, 6), min_size=1, max_size=10)


def sim_script(exc=False):
    d = {
        "vec": st.sampled_from([3, 3, 1, 2]),
        "new": st.sampled_from([0, 0, 0, 1, 2]),
        "few": st.sampled_from([False, False, False, True]),
        "none": st.sampled_from([False] * 9 + [True]),
        "nan": st.sampled_from([False, False, False, True]),
        "form": st.sampled_from(["a", "pi", "st", "pist", "str", "pistr"]),
    }
    return st.lists(st.fixed_dictionaries(d), min_size=1, max_size=6)


def batch(ids=True, prio=None, maxn=6, cancel=False, form=True):
    d = {"n": st.integers(0, maxn) if ids else st.integers(1, maxn)}
    d["few"] = st.sampled_from([False, False, False, True])
    d["new"] = st.sampled_from([0, 0, 0, 0, 1, 2])
    if prio:
        d["prio"] = st.integers(1, 5) if prio == "all" else st.sampled_from([0, 0, 1, 2, 3])
    if ids:
        d["ids"] = st.booleans()
        d["upd"] = st.lists(st.integers(0, 40), max_size=3)
        d["perm"] = st.integers(0, 7)
        if cancel:
            d["cancel"] = st.integers(0, 3)
    if form:
        d["form"] = st.sampled_from(["a", "pi", "st", "pist"])
    return st.fixed_dictionaries(d)


def pos_first(script):
    """The first batch must not be empty."""
    script = [dict(b) for b in script]
    script[0]["n"] = max(1, script[0]["n"])
    return script


def h0_strategy():
    return st.one_of(
        st.none(),
        st.fixed_dictionaries(
            {
                "n": st.integers(1, 5),
                "fields": st.sampled_from(["x", "x+id", "life", "full"]),
                "ended": st.integers(0, 31),
                "informed": st.integers(0, 31),
                "extra": st.booleans(),
            }
        ),
    )


def make_H0(h):
    """An H0 array as a user might supply it; points are xval(0..n-1)."""
    if not h:
        return None
    n = h["n"]
    dt = [("x", float, (2,)), ("f", float), ("tag", int)]
    kind = h["fields"]
    if kind in ("x+id", "life", "full"):
        dt.append(("sim_id", int))
    if kind in ("life", "full"):
        dt += [("sim_started", bool), ("sim_ended", bool)]
    if kind == "full":
        dt += [("gen_informed", bool), ("sim_worker", int), ("gen_worker", int), ("sim_started_time", float),
               ("sim_ended_time", float), ("gen_ended_time", float), ("gen_started_time", float),
               ("gen_informed_time", float), ("cancel_requested", bool), ("kill_sent", bool)]
    if h.get("extra"):
        dt.append(("old", float))
    H0 = np.zeros(n, dtype=dt)
    for i in range(n):
        H0["x"][i] = xval(i)
        H0["tag"][i] = 1000 + i
        ended = True
        if kind in ("life", "full"):
            ended = bool(h["ended"] >> i & 1)
            H0["sim_started"][i] = H0["sim_ended"][i] = ended
        if ended:
            H0["f"][i] = fval(xval(i)) + 0.0
        if "sim_id" in H0.dtype.names:
            H0["sim_id"][i] = i
        if kind == "full":
            H0["gen_informed"][i] = ended and bool(h["informed"] >> i & 1)
            H0["gen_worker"][i] = 1
            H0["gen_ended_time"][i] = 5.0 + i
            H0["gen_started_time"][i] = 4.0
            H0["gen_informed_time"][i] = np.inf if not H0["gen_informed"][i] else 20.0 + i
            H0["sim_worker"][i] = 2 if ended else 0
            H0["sim_started_time"][i] = 7.0 if ended else np.inf
            H0["sim_ended_time"][i] = 8.0 + i if ended else 0
        if h.get("extra"):
            H0["old"][i] = i * 1.5
    return H0


def base_specs(run, sim, gen, sim_in=None, gen_in=None, persis_in=None, gen_user=None, gen_extra_out=(), sim_extra_out=()):
    sim_specs = {
        "sim_f": run.wrap("sim", sim),
        "in": sim_in if sim_in is not None else ["x", "sim_id"],
        "out": SIM_OUT + list(sim_extra_out),
    }
    gen_specs = {
        "gen_f": run.wrap("gen", gen),
        "in": gen_in if gen_in is not None else [],
        "persis_in": persis_in if persis_in is not None else ["sim_id", "x", "f"],
        "out": GEN_OUT + list(gen_extra_out),
        "user": gen_user or {},
    }
    return sim_specs, gen_specs


def init_run(case, H0=None, **kw):
    run = Run(case.get("delays", [0]), **kw)
    run.total = len(H0) if H0 is not None else 0
    run.batches = []
    run.gens_started = 0
    run.cancelled = set()
    run.gen_left = False
    return run


# ------------------------------------------------------------------ fuzz workload


def fuzz_strategy():
    return st.fixed_dictionaries(
        {
            "nw": st.integers(1, 4),
            "delays": delays,
            "dec": st.lists(st.integers(0, 30), min_size=2, max_size=24),
            "gens": st.lists(batch(cancel=True), min_size=1, max_size=7).map(pos_first),
            "sims": sim_script(),
            "sim_max": st.one_of(st.none(), st.integers(1, 24)),
            "persis": st.booleans(),
            "popts": st.fixed_dictionaries(
                {"ret": st.sampled_from(["none", "H", "upd"]), "own": st.booleans(), "ret_n": st.integers(1, 3)}
            ),
            "use_ret": st.booleans(),
            "gom": st.sampled_from([False, False, False, True]),
            "H0": h0_strategy(),
            "scramble": st.booleans(),
            "safe": st.booleans(),
        }
    )


def run_fuzz(case, extra_specs=None, alloc_wrap=None):
    H0 = make_H0(case["H0"])
    run = init_run(case, H0)
    gens = case["gens"]
    if case.get("safe"):
        pass
    gen = make_persis_gen(gens, case["popts"]) if case["persis"] else make_gen(gens)
    sim_specs, gen_specs = base_specs(run, make_sim(case["sims"]), gen)
    exit_criteria = {"sim_max": case["sim_max"]} if case["sim_max"] else {"gen_max": 10**6}
    if case["gom"] and case["nw"] == 1:
        pass
    libE_specs = {
        "gen_on_manager": case["gom"],
        "use_persis_return_gen": case["use_ret"],
        "safe_mode": case["safe"],
    }
    libE_specs.update(extra_specs or {})
    alloc = fuzz_alloc(run, case)
    if alloc_wrap:
        alloc = alloc_wrap(run, alloc)
    alloc_specs = {"alloc_f": run.wrap_alloc(alloc), "out": []}
    run.go(case["nw"], sim_specs, gen_specs, exit_criteria, {}, alloc_specs, libE_specs, H0)
    run.H0 = H0
    return run


# ------------------------------------------------------------------ workload with the supplied allocation functions


def supplied_alloc(name):
    from libensemble.alloc_funcs import fast_alloc, give_pregenerated_work, give_sim_work_first, only_one_gen_alloc
    from libensemble.alloc_funcs import start_only_persistent

    return {
        "gswf": give_sim_work_first.give_sim_work_first,
        "fast": fast_alloc.give_sim_work_first,
        "one": only_one_gen_alloc.ensure_one_active_gen,
        "pregen": give_pregenerated_work.give_pregenerated_sim_work,
        "opg": start_only_persistent.only_persistent_gens,
    }[name]


EXIT = ("sim_max", "gen_max", "stop_val", "wallclock_max")


@st.composite
def supplied_strategy(draw, allocs=("gswf", "fast", "one", "pregen", "opg", "opg"), maxw=5, exits=("sim_max", "gen_max"), H0="any",
                      cancel=True, prio="some", kill=False, final=True, res=False, errors=False, own=True, gom=True, psim=False):
    c = {"alloc": draw(st.sampled_from(allocs)), "nw": draw(st.integers(1, maxw)), "delays": draw(delays)}
    persis = c["alloc"] == "opg"
    c["sims"] = draw(sim_script())
    c["gom"] = gom and c["alloc"] != "pregen" and draw(st.sampled_from([False, False, False, True]))
    if persis and not c["gom"]:
        c["nw"] = max(2, c["nw"])
    u = {}
    if c["alloc"] in ("gswf", "fast", "opg"):
        n = draw(st.sampled_from([1, 1, None, 2, 3]))
        if n is not None:
            u["num_active_gens"] = n
    if c["alloc"] == "gswf" and draw(st.booleans()):
        u["batch_mode"] = True
    if c["alloc"] in ("gswf", "opg") and prio and draw(st.booleans()):
        u["give_all_with_same_priority"] = True
    if persis:
        u["async_return"] = draw(st.booleans())
        if draw(st.booleans()):
            u["init_sample_size"] = draw(st.integers(0, 8))
        if draw(st.sampled_from([False, False, True])):
            u["active_recv_gen"] = True
        if u.get("num_active_gens", 1) > 1:
            c["gom"] = False  # one generator only can run on the manager
            c["nw"] = max(2, c["nw"])
            u["num_active_gens"] = max(1, min(u["num_active_gens"], c["nw"] - 1))
    if persis and psim and draw(st.sampled_from([False, True])):
        u["alt_type"] = True
        c["use_ret_sim"] = draw(st.booleans())
        c["psim"] = {"ret": draw(st.booleans()), "leave": draw(st.integers(0, 3)) if c["use_ret_sim"] else 0}
    c["user"] = u
    single = c["alloc"] == "one" or u.get("num_active_gens", 1 if persis else None) == 1
    pr = prio and c["alloc"] in ("gswf", "opg") and draw(st.sampled_from([False, True, True]))
    b = batch(ids=single, prio="all" if pr else None, maxn=6, cancel=cancel and single)
    if persis:
        ng = u.get("num_active_gens", 1)
        scr = draw(st.lists(st.lists(b, min_size=1, max_size=5), min_size=ng, max_size=ng))
        scr = [[dict(x, n=max(2, x["n"]), form=None) for x in s] for s in scr]
        c["gens"] = scr
        c["popts"] = {"ret": draw(st.sampled_from(["none", "H", "upd"])), "ret_n": draw(st.integers(1, 3)),
                      "own": own and draw(st.sampled_from([False, False, True])), "filler": draw(st.integers(1, 3)),
                      "active": bool(u.get("active_recv_gen")), "tries": draw(st.integers(0, 6))}
        if ng > 1 and c["popts"]["ret"] == "upd":
            c["popts"]["ret"] = "H"
        c["use_ret"] = draw(st.booleans())
        c["gen_in"] = ["x", "f", "sim_id"]
        if final:
            c["final"] = draw(st.sampled_from([False, False, True]))
    else:
        scr = draw(st.lists(b, min_size=1, max_size=6))
        c["gens"] = [dict(x, n=max(2, x["n"])) for x in scr]
        c["gen_in"] = draw(st.sampled_from([[], ["f"], ["sim_id", "x", "f"]]))
    if H0 == "any":
        c["H0"] = draw(h0_strategy())
    else:
        c["H0"] = None
    if c["alloc"] == "pregen":
        c["H0"] = {"n": draw(st.integers(1, 14)), "fields": "life", "ended": 0, "informed": 0, "extra": draw(st.booleans())}
    elif c["H0"] and (c["alloc"] in ("fast", "one") or u.get("alt_type")):
        # (persistent simulators must leave a worker to the generator)
        c["H0"] = dict(c["H0"], ended=31)
    ex = draw(st.sampled_from(exits))
    e = {}
    if ex in ("sim_max", "gen_max"):
        e[ex] = draw(st.integers(1, 20))
        if c["alloc"] == "pregen" and ex == "gen_max":
            e = {"sim_max": e[ex]}
    elif ex == "both":
        e = {"sim_max": draw(st.integers(1, 20)), "gen_max": draw(st.integers(1, 24))}
        if c["alloc"] == "pregen":
            del e["gen_max"]
    elif ex == "stop_val":
        e = {"stop_val": ["f", draw(st.sampled_from([-6.0, -3.0, 0.0, 2.0, 4.125, 100.0]))], "sim_max": draw(st.integers(1, 30))}
    elif ex == "wallclock_max":
        e = {"wallclock_max": draw(st.sampled_from([0.001, 0.01, 0.02, 0.05, 0.1, 0.3])), "sim_max": draw(st.sampled_from([3, 10, 40]))}
    c["exit"] = e
    c["kill"] = bool(kill and draw(st.booleans()))
    c["safe"] = draw(st.booleans())
    return c


def run_supplied(case, extra_specs=None, alloc_wrap=None, sim=None, gen=None, sim_in=None, gen_out=(), H0=None, **kw):
    if H0 is None:
        H0 = make_H0(case.get("H0"))
    if case["alloc"] == "pregen" or (case.get("H0") and case.get("h0_plain")):
        pass
    run = init_run(case, H0, **kw)
    persis = case["alloc"] == "opg"
    if gen is None:
        gen = make_persis_gens(case["gens"], case["popts"]) if persis else make_gen(case["gens"])
    if case.get("psim"):
        sim = make_psim(case["sims"], case["psim"])
    pr = any("prio" in b for g in (case["gens"] if persis else [case["gens"]]) for b in g)
    sim_specs, gen_specs = base_specs(
        run, sim or make_sim(case["sims"]), gen, sim_in=sim_in, gen_in=case.get("gen_in", []),
        persis_in=case.get("persis_in", ["sim_id", "x", "f"]), gen_extra_out=([("priority", float)] if pr else []) + list(gen_out),
    )
    if case["alloc"] == "pregen":
        gen_specs = {}
    persis_info = {}
    if case["alloc"] in ("fast", "one"):
        persis_info = {"next_to_give": len(H0) if H0 is not None else 0, "total_gen_calls": 0}
    for w in range(0, case["nw"] + 1):
        persis_info[w] = {"id": w}
    persis_info.update(case.get("pi_extra") or {})
    libE_specs = {
        "gen_on_manager": case.get("gom", False),
        "use_persis_return_gen": case.get("use_ret", False),
        "use_persis_return_sim": case.get("use_ret_sim", False),
        "final_gen_send": case.get("final", False),
        "kill_canceled_sims": case.get("kill", False),
        "safe_mode": case.get("safe", False),
    }
    libE_specs.update(extra_specs or {})
    alloc = supplied_alloc(case["alloc"])
    if alloc_wrap:
        alloc = alloc_wrap(run, alloc)
    alloc_specs = {"alloc_f": run.wrap_alloc(alloc), "user": dict(case["user"])}
    ex = dict(case["exit"])
    if "stop_val" in ex:
        ex["stop_val"] = tuple(ex["stop_val"])
    run.go(case["nw"], sim_specs, gen_specs, ex, persis_info, alloc_specs, libE_specs, H0)
    run.H0 = H0
    return run
