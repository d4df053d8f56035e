"""C14: safe mode keeps user functions from changing protected fields."""
import glob
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, work
from vlib.core import Target, require
from vlib.judge import clean_run

TECHNIQUE = "property-based testing: generated runs with scripted attempts to change protected fields, and a differential of safe mode on and off"
RULE = (
    "attempts: in a generated run one user function (simulator, generator, persistent function while running or on "
    "return, or the allocation function, writing in place in several ways, also before it raises itself) tries to change "
    "one protected field; once the manager has handled the attempt the run must have ended with an error, and the history "
    "dumped then must hold none of the values tried (for the allocation function: exactly the protected values it was "
    "given). same: runs without attempts, in which user functions write into the arrays they were given and write "
    "unprotected fields (of their own, cancel_requested, sim_id), give the same history with safe mode on and off and "
    "without the scribbling. Non-trivial: the attempt was handled by the manager in a run that had evaluated a point; or "
    "at least three points were evaluated, with scribbling or writes."
)
ASSUMPTIONS = [
    "attempts go through the interface (returned and sent arrays, the history given to the allocation function), not "
    "through Python objects reached by introspection"
]

PROTECTED = {
    "gen_worker": int, "gen_started_time": float, "gen_ended_time": float, "sim_worker": int, "sim_started": bool,
    "sim_started_time": float, "sim_ended": bool, "sim_ended_time": float, "gen_informed": bool,
    "gen_informed_time": float, "kill_sent": bool,
}  # fmt: skip
NUM = [f for f, t in PROTECTED.items() if t is not bool]
SENT = {int: 7777, float: 123456.75}


def shard_setup():
    ens.quiet_logs()


def eq(a, b):
    if np.issubdtype(np.asarray(a).dtype, np.floating):
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def with_field(out, field, first):
    """The output array with one protected field more."""
    t = PROTECTED[field]
    dt = out.dtype.descr
    new = np.zeros(len(out), dtype=[(field, t)] + dt if first else dt + [(field, t)])
    for n in out.dtype.names:
        new[n] = out[n]
    new[field] = True if t is bool else SENT[t]
    return new


def swap(ret, change):
    """Apply a change to the array in what a user function returns."""
    if isinstance(ret, tuple):
        return (change(ret[0]),) + ret[1:]
    return change(ret)


# ------------------------------------------------------------------ attempts


@st.composite
def attempt_strategy(draw):
    c = draw(work.supplied_strategy(exits=("sim_max", "gen_max", "both"), psim=True))
    c["safe"] = True
    roles = ["sim", "alloc"]
    if c["alloc"] == "opg":
        roles = ["alloc"]
        if c.get("psim"):
            roles += ["psim_send"] * 2
            if c.get("use_ret_sim") and (c["psim"]["ret"] or c["psim"]["leave"]):
                roles += ["psim_ret"] * 3
        else:
            roles.append("sim")
        roles += ["pgen_send"] * 2
        if c.get("use_ret") and c["popts"]["ret"] != "none":
            roles += ["pgen_ret"] * 3
    elif c["alloc"] != "pregen":
        roles.append("gen")
    role = draw(st.sampled_from(roles))
    if role == "alloc":
        fields = list(PROTECTED)
    elif role in ("sim", "psim_send"):
        fields = NUM + ["sim_ended", "kill_sent", "gen_informed"]
    else:
        fields = NUM + ["kill_sent"]
    return {
        "role": role,
        "field": draw(st.sampled_from(fields)),
        "at": draw(st.integers(0, 6 if role in ("sim", "alloc") else 3)),
        "first": draw(st.booleans()),
        "row": draw(st.integers(0, 30)),
        "how": draw(st.sampled_from(["item", "item", "field", "row", "slice", "nan", "last", "raise", "two", "undo"])),
        "case": c,
    }


def alloc_write(H, case):
    """Write to protected fields of H in one of several ways; False if nothing changed in the end."""
    f, how = case["field"], case["how"]
    i = case["row"] % len(H)
    before = H.copy()
    t = PROTECTED[f]

    def other(v):
        return not v if t is bool else SENT[t]

    if how == "field":
        H[f] = ~H[f] if t is bool else SENT[t]
    elif how == "row":
        r = H[i]
        r[f] = other(r[f])
    elif how == "slice":
        v = H[i:]
        v[f][0] = other(v[f][0])
    elif how == "nan" and t is float:
        H[f][i] = np.nan
    elif how == "last":
        H[-1][f] = other(H[-1][f])
    elif how == "two":
        H["sim_ended"][i] = not H["sim_ended"][i]
        H["sim_started"][i] = H["sim_ended"][i]
    elif how == "undo":
        H[f][i] = other(H[f][i])
        H[f][i] = before[f][i]
    else:
        H[f][i] = other(H[f][i])
    return any(not eq(H[g], before[g]) for g in PROTECTED)


def attempts(case, rec):
    c, role, field = case["case"], case["role"], case["field"]
    made = {}
    seen = {"n": 0}

    def now():
        seen["n"] += 1
        return seen["n"] - 1 == case["at"]

    def try_on(serial):
        def change(out):
            if isinstance(out, np.ndarray) and out.dtype.names and len(out) and now():
                made["serial"] = serial
                made["rows"] = len(out)
                return with_field(out, field, case["first"])
            return out

        return change

    def wrap_fn(fn):
        def f(run, k, H, persis_info, specs, libE_info):
            ret = fn(run, k, H, persis_info, specs, libE_info)
            return swap(ret, try_on(run.cur[libE_info["workerID"]]))

        return f

    def attach(run, alloc):
        if role in ("pgen_send", "psim_send"):

            def hook(ps, out):
                if ps.role != role[1:4]:
                    return out, False
                return try_on(run.serials + 1)(out), False

            run.ps_hook = hook

        def alloc2(W, H, *args):
            out = None
            if len(H) and now():
                if case["how"] == "raise":
                    alloc_write(H, dict(case, how="item"))
                    made["alloc"] = True
                    raise ens.UserError("the allocation function fails")
                made["alloc"] = alloc_write(H, case)
                if not made["alloc"]:
                    made.clear()
                    made["undone"] = True
                if made.get("alloc") and case["first"]:
                    return {}, args[3]
            out = alloc(W, H, *args)
            return out

        return alloc2 if role == "alloc" else alloc

    sim = gen = None
    persis = c["alloc"] == "opg"
    if role == "sim":
        sim = wrap_fn(work.make_sim(c["sims"]))
    elif role == "psim_ret":
        pass
    elif role in ("gen", "pgen_ret"):
        gen = wrap_fn(work.make_persis_gens(c["gens"], c["popts"]) if persis else work.make_gen(c["gens"]))
    base = tempfile.mkdtemp(prefix="verif_c14_")
    old = os.getcwd()
    real = work.make_psim
    try:
        os.chdir(base)
        if role == "psim_ret":
            work.make_psim = lambda script, opts: wrap_fn(real(script, opts))
        run = work.run_supplied(c, {"save_H_and_persis_on_abort": True}, alloc_wrap=attach, sim=sim, gen=gen)
        dumps = [np.load(f, allow_pickle=True) for f in glob.glob("libE_history_at_abort_*.npy")]
    finally:
        work.make_psim = real
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)
    run.require_ended()
    handled = bool(made.get("alloc"))
    if "serial" in made:
        handled = any(e.d.get("serial") == made["serial"] for e in run.of("mget"))
    evaluated = any(e.d["role"] == "sim" for e in run.of("ret")) or bool(run.of("ps_send"))
    if not handled:
        clean_run(run)
        rec.label(role + (": undone" if "undone" in made else ": no attempt"))
        rec.nontrivial(False)
        return
    require(
        run.exc is not None,
        lambda: f"{role} set the protected field {field} ({made}) and the run ended without an error\n{run.tail(12)}",
        f"no error: {role}",
    )
    require(len(dumps) == 1, lambda: f"{len(dumps)} histories dumped after {run.exc!r}\n{run.tail(12)}", "no dump")
    D = dumps[0]
    if role == "alloc":
        last = run.of("alloc_in")[-1]
        H = last.d["H"]
        # messages on their way are still handled after the error
        late = {e.d["serial"] for e in run.ev[run.ev.index(last):] if e.kind == "mget"}
        rows = [r for e in run.of("ret", "ps_send") if e.d["serial"] in late and e.d["rows"] is not None for r in e.d["rows"]]
        stay = np.ones(len(H), dtype=bool)
        stay[[r for r in rows if r < len(H)]] = False
        require(len(D) >= len(H), lambda: f"{len(D)} rows dumped, {len(H)} given to the allocation function", "rows")
        for g, t in PROTECTED.items():
            which = stay if g in ("sim_ended", "sim_ended_time") else np.ones(len(H), dtype=bool)
            if g.startswith("gen_informed") and c.get("final"):
                which = ~H["sim_ended"] & stay  # (the generator is sent the last results)
            elif g.startswith("gen_") and late:
                which = H["gen_ended_time"] > 0  # (others get a generator when one updates them)
            require(
                eq(D[g][: len(H)][which], H[g][which]),
                lambda: f"after the allocation function wrote {field} ({case['how']}), {g} is {D[g]} and was {H[g]}",
                "alloc: a protected value changed",
            )
            require(t is bool or not (D[g] == SENT[t]).any(), "alloc: a value written stays")
    else:
        t = PROTECTED[field]
        ids = None
        if t is bool and field != "kill_sent":
            # a point being evaluated cannot have ended, nor have been given back
            ev = [e for e in run.of("ret", "ps_send") if e.d["serial"] == made["serial"]][0]
            ids = ev.d["rows"]
            bad = D[field][ids]
        else:
            bad = D[field] if t is bool else D[field] == SENT[t]
        require(
            not bad.any(),
            lambda: f"{role} set {field}, and the history after the error has {D[field]} (rows {ids})\n{run.tail(12)}",
            f"{role}: a protected value changed",
        )
    rec.label(role)
    rec.label("field:" + field)
    if role == "alloc":
        rec.label("alloc:" + case["how"])
    rec.nontrivial(evaluated)


# ------------------------------------------------------------------ the same with and without


@st.composite
def same_strategy(draw):
    c = draw(work.supplied_strategy(exits=("sim_max", "gen_max", "both", "stop_val"), psim=True, kill=True))
    extra = draw(st.lists(st.sampled_from(list(PROTECTED) + ["cancel_requested"]), max_size=4, unique=True))
    if c["gen_in"]:
        c["gen_in"] = c["gen_in"] + extra
    c["persis_in"] = ["sim_id", "x", "f"] + extra
    return {
        "case": c,
        "scribble": draw(st.booleans()),
        "sim_in": draw(st.lists(st.sampled_from(list(PROTECTED)), max_size=3, unique=True)),
        "note_sim": draw(st.booleans()),
        "writes": draw(
            st.lists(
                st.tuples(st.integers(0, 8), st.integers(0, 20), st.sampled_from(["note", "note", "cancel"])), max_size=4
            )
        ),
    }


def scribble_on(H):
    try:
        for n in H.dtype.names:
            k = H[n].dtype.kind
            H[n] = ~H[n] if k == "b" else "zz" if k in "US" else 99
    except ValueError:
        pass  # read-only


def same_run(case, safe, scribble):
    c = dict(case["case"], safe=safe)
    persis = c["alloc"] == "opg"
    done = []
    # generators that write cancel_requested themselves may overwrite it
    says_cancel = any(b.get("cancel") for g in (c["gens"] if persis else [c["gens"]]) for b in g)

    def wrap_fn(fn, note):
        def f(run, k, H, persis_info, specs, libE_info):
            Hc = H.copy() if scribble else H
            if scribble:
                scribble_on(H)
            ret = fn(run, k, Hc, persis_info, specs, libE_info)
            if note:

                def add(out):
                    if not isinstance(out, np.ndarray) or not out.dtype.names:
                        return out
                    new = np.zeros(len(out), dtype=out.dtype.descr + [("note2", int)])
                    for n in out.dtype.names:
                        new[n] = out[n]
                    new["note2"] = 500 + k
                    return new

                return swap(ret, add)
            return ret

        return f

    def attach(run, alloc):
        if scribble:

            def recv(calc_in):
                keep = calc_in.copy()
                scribble_on(calc_in)
                return keep

            run.recv_hook = recv
        calls = {"n": 0}

        def alloc2(W, H, *args):
            n = calls["n"]
            calls["n"] += 1
            for at, row, what in case["writes"]:
                if n == at and len(H):
                    i = row % len(H)
                    if what == "note" and "note" not in H.dtype.names:
                        continue
                    if what == "note":
                        H["note"][i] = 1000 + n
                        done.append(("note", i, 1000 + n))
                    elif not H["sim_started"][i] and not says_cancel and c["alloc"] in ("gswf", "opg"):
                        H["cancel_requested"][i] = True
                        run.cancelled.add(i)
                        done.append(("cancel_requested", i, True))
            return alloc(W, H, *args)

        return alloc2

    sim = wrap_fn(work.make_sim(c["sims"]), case["note_sim"])
    gen = wrap_fn(work.make_persis_gens(c["gens"], c["popts"]) if persis else work.make_gen(c["gens"]), False)
    run = work.run_supplied(
        c, {}, alloc_wrap=attach, sim=sim, gen=gen, sim_in=["x", "sim_id"] + case["sim_in"],
        gen_out=[("note", int), ("note2", int)],
    )
    return run, done


def same(case, rec):
    base, done = same_run(case, True, False)
    clean_run(base, "a run in safe mode without attempts")
    H = np.asarray(base.H)
    for what, i, v in dict(((w, i), (w, i, v)) for w, i, v in done).values():
        if what in H.dtype.names:
            require(
                H[what][i] == v,
                lambda: f"the allocation function set {what} of point {i} to {v}, the history has {H[what][i]}",
                "lost write",
            )
    if case["note_sim"] and not case["case"].get("psim"):
        for e in base.of("ret"):
            if e.d["role"] != "sim":
                continue
            out = e.d["out"]
            out = out[0] if isinstance(out, tuple) else out
            got = any(m.d["serial"] == e.d["serial"] for m in base.of("mget"))
            if got and isinstance(out, np.ndarray):
                require((H["note2"][e.d["rows"]] == out["note2"]).all(), "values of an unprotected field returned are lost")
    variants = [("safe mode off", False, False)]
    if case["scribble"]:
        variants += [("functions that write into their inputs", True, True), ("the same with safe mode off", False, True)]
    for name, safe, scr in variants:
        other, _ = same_run(case, safe, scr)
        clean_run(other, "a run with " + name)
        G = np.asarray(other.H)
        require(len(G) == len(H), lambda: f"{len(G)} points with {name}, {len(H)} in safe mode", "number of points: " + name)
        require(other.flag == base.flag, lambda: f"exit flag {other.flag} with {name}, {base.flag} in safe mode", "flag: " + name)
        for f in H.dtype.names:
            if f.endswith("_time"):
                continue
            require(
                f in G.dtype.names and eq(H[f], G[f]),
                lambda: f"{f} is {G[f]} with {name} and {H[f]} in safe mode without",
                f"{name}: differs",
            )
    n = int(H["sim_ended"].sum())
    rec.label(case["case"]["alloc"])
    if case["scribble"]:
        rec.label("scribble")
    for w, _, _ in done:
        rec.label("write:" + w)
    rec.nontrivial(n >= 3 and bool(case["scribble"] or done or case["note_sim"]), interest=n)




TARGETS = [
    Target("attempts", attempt_strategy, attempts, 2400, 40000),
    Target("same", same_strategy, same, 900, 12000),
]
