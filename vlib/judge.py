"""Judgements on the trace of a run that several checks share."""
import numpy as np

from vlib.core import Violation, require
from vlib.ens import GEN, PERSIS_STOP, SIM, STOP_TAG
from vlib.model import LIBE_FIELDS, Ref, same

WORK_TAGS = (SIM, GEN, PERSIS_STOP)


def clean_run(run, what="a run without failures"):
    """The run must have ended by itself without an error and with all workers gone."""
    run.require_ended()
    if run.exc is not None:
        import traceback

        tb = "".join(traceback.format_exception(run.exc))[-2500:]
        raise Violation(
            f"{what} raised {type(run.exc).__name__}: {run.exc}\n{tb}\n{run.tail()}",
            f"error in {what}: {type(run.exc).__name__} {str(run.exc)[:80]}",
        )
    require(not run.leftover, lambda: f"workers still in their loop after the run: {run.leftover}\n{run.tail()}", "leftover workers")


def reference(run, case, aspects, **kw):
    cut = run.flag == 2 and "wallclock_max" in case.get("exit", {})
    ref = Ref(run, aspects, H0=run.H0, dims={"fvec": 3}, use_ret_gen=bool(case.get("use_ret")),
              use_ret_sim=bool(case.get("use_ret_sim")), cut=cut, **kw).replay()
    ref.compare(run.H, "history returned by libE()")
    return ref


def is_work(e):
    return e.kind == "msend" and e.d["tag"] in WORK_TAGS and isinstance(e.d["body"], dict) and "libE_info" in e.d["body"]


def workload_labels(rec, case, ref):
    s = ref.stats
    if case["H0"]:
        rec.label("with H0")
    for k in ("unordered", "partial", "updates", "informed"):
        if s[k]:
            rec.label(k)
    rec.label("alloc " + case.get("alloc", "fuzz"))
    if case.get("gom"):
        rec.label("generator on manager")
    if case.get("persis") or case.get("alloc") == "opg":
        rec.label("persistent generator")


# ------------------------------------------------------------------ C03


def routing(run, case, ref_names=("x", "tag", "name", "sim_id", "f", "fvec", "msg", "done")):
    """What is sent is what was asked for, with the values of that moment, to an idle worker, and arrives so."""
    tail = run.tail
    work = snap = None
    sent_of_alloc = set()
    sim_max_given = False
    busy = {}
    expect = {}  # worker -> list of (tag, rows, fields, data) not yet seen by the user function
    open_send = {}  # worker -> entry waiting for its data message
    given = {}
    active_mode = set()
    stats = {"orders": 0, "overlap": 0, "fields": set()}
    keep = {e.d["serial"] for e in run.ev if e.kind == "ps_send" and e.d.get("keep_state")}
    src = {e.d["serial"]: e for e in run.ev if e.kind in ("ret", "ps_send")}
    for e in run.ev:
        if e.kind == "alloc_in":
            snap = e.d["H"]
            if work is not None and not sim_max_given:
                missing = set(work) - sent_of_alloc
                if missing and not e.d["info"]["sim_max_given"]:
                    raise Violation(f"work asked for by the allocation function was never sent to {missing}\n{tail()}", "work not sent")
            work, sent_of_alloc = None, set()
        elif e.kind == "alloc_out":
            work = e.d["Work"]
        elif e.kind == "msend":
            w, tag, body = e.d["w"], e.d["tag"], e.d["body"]
            if is_work(e):
                rows = np.asarray(body["libE_info"]["H_rows"])
                fields = list(body["H_fields"])
                if tag != PERSIS_STOP:
                    require(work is not None and w in work, lambda: f"worker {w} got work that was not asked for\n{tail()}", "unrequested work")
                    require(w not in sent_of_alloc, lambda: f"worker {w} was sent one order twice\n{tail()}", "order sent twice")
                    sent_of_alloc.add(w)
                    ask = work[w]
                    require(
                        tag == ask["tag"] and set(fields) == set(ask["H_fields"]) and list(rows) == list(np.atleast_1d(ask["libE_info"]["H_rows"])),
                        lambda: f"worker {w} was sent tag {tag} rows {rows} fields {fields}, asked for: {ask}\n{tail()}",
                        "order changed",
                    )
                    if busy.get(w) and not body["libE_info"].get("active_recv"):
                        raise Violation(f"worker {w} got new work while it was busy\n{tail()}", "work for a busy worker")
                    busy[w] = True
                    if tag == SIM:
                        for r in rows:
                            if int(r) in given and not case.get("regive"):
                                raise Violation(
                                    f"point {int(r)} was given out to worker {given[int(r)]} and again to worker {w}\n{tail()}",
                                    "point evaluated twice",
                                )
                            given[int(r)] = w
                    stats["orders"] += 1
                    if sum(busy.values()) > 1:
                        stats["overlap"] += 1
                ent = {"tag": tag, "rows": rows, "fields": fields, "data": None}
                expect.setdefault(w, []).append(ent)
                if len(rows):
                    open_send[w] = ent
            elif tag == 0 and isinstance(body, np.ndarray):
                ent = open_send.pop(w, None)
                require(ent is not None, lambda: f"rows sent to worker {w} without an order\n{tail()}", "rows without order")
                require(
                    set(body.dtype.names) == set(ent["fields"]) and len(body) == len(ent["rows"]),
                    lambda: f"worker {w} was sent fields {body.dtype.names} and {len(body)} rows, asked for: {ent}\n{tail()}",
                    "wrong fields or number of rows sent",
                )
                if ent["tag"] != PERSIS_STOP:
                    for f in ent["fields"]:
                        if f in LIBE_FIELDS and f != "sim_id":
                            continue
                        require(
                            same(body[f], snap[f][ent["rows"]]),
                            lambda: f"worker {w} was sent {f}={body[f]} for rows {ent['rows']}; the history held {snap[f][ent['rows']]}\n{tail()}",
                            "wrong values sent",
                        )
                        stats["fields"].add(f)
                ent["data"] = body
        elif e.kind == "mget":
            if e.d["serial"] is not None and abs(e.d["serial"]) not in keep:
                busy[e.d["w"]] = False
        elif e.kind in ("call", "ps_recv"):
            w = e.d["w"]
            if e.kind == "ps_recv" and e.d["rows"] is None:
                continue
            q = expect.get(w)
            require(q, lambda: f"the user function on worker {w} got an order that was not sent to it\n{tail()}", "order from nowhere")
            ent = q.pop(0)
            if e.kind == "call":
                role = {SIM: "sim", GEN: "gen"}.get(ent["tag"])
                require(e.d["role"] == role, lambda: f"worker {w}: {e.d['role']} was called for an order of tag {ent['tag']}\n{tail()}", "wrong user function")
            else:
                require(e.d["tag"] == ent["tag"], lambda: f"worker {w} received tag {e.d['tag']} for {ent}\n{tail()}", "wrong tag")
            got = e.d["calc_in"]
            require(
                list(e.d["rows"]) == list(ent["rows"]),
                lambda: f"worker {w} got H_rows {e.d['rows']} instead of {ent['rows']}\n{tail()}",
                "wrong H_rows at the user function",
            )
            if len(ent["rows"]):
                ok = isinstance(got, np.ndarray) and got.dtype.names is not None and set(got.dtype.names) == set(ent["fields"])
                ok = ok and len(got) == len(ent["rows"]) and all(same(got[f], ent["data"][f]) for f in ent["fields"])
                require(ok, lambda: f"worker {w} got {got!r} instead of {ent['data']!r}\n{tail()}", "wrong rows at the user function")
            else:
                require(got is None or len(got) == 0, lambda: f"worker {w} got {got!r} for an order without rows\n{tail()}", "rows for an order without rows")
    return stats


# ------------------------------------------------------------------ C04


def criteria_met(case, H, n0, started0, ended0):
    """Which exit criteria hold for this history."""
    ex = case["exit"]
    out = []
    if "sim_max" in ex and int(np.sum(H["sim_ended"])) - ended0 >= ex["sim_max"]:
        out.append("sim_max")
    if "gen_max" in ex and len(H) - n0 >= ex["gen_max"]:
        out.append("gen_max")
    if "stop_val" in ex:
        key, val = ex["stop_val"]
        if any(v <= val for v in H[key][H["sim_ended"]] if v == v):
            out.append("stop_val")
    return out


def exit_rules(run, case):
    """When the run ends, and what it hands out, agree with the exit criteria."""
    tail = run.tail
    ex = case["exit"]
    n0, started0, ended0 = 0, 0, 0
    if run.H0 is not None:
        n0 = len(run.H0)
        names = run.H0.dtype.names
        started0 = int(np.sum(run.H0["sim_started"])) if "sim_started" in names else n0
        ended0 = int(np.sum(run.H0["sim_ended"])) if "sim_ended" in names else started0
    allocs = [e for e in run.ev if e.kind == "alloc_in"]
    outs = [e for e in run.ev if e.kind == "alloc_out"]
    t0 = next((e.t for e in run.ev if e.kind == "msend"), None)
    wall = ex.get("wallclock_max")
    for e in allocs[:-1]:
        met = criteria_met(case, e.d["H"], n0, started0, ended0)
        require(not met, lambda: f"the run went on although {met} of {ex} was met at t={e.t - 1e9}\n{tail()}", f"run goes on after {met}")
        if wall is not None:
            require(
                e.t - t0 < wall + 5e-3,
                lambda: f"the run went on {e.t - t0 - wall} s after the wall-clock limit {wall}\n{tail()}",
                "run goes on after wallclock_max",
            )
    # hand-out limit: orders are sent only while the number given out is below sim_max
    new = 0
    for e in run.ev:
        if e.kind == "msend" and e.d["tag"] == SIM and is_work(e):
            if "sim_max" in ex:
                require(
                    new < ex["sim_max"],
                    lambda: f"simulation work was given out although {new} of sim_max={ex['sim_max']} had been given out\n{tail()}",
                    "work given out beyond sim_max",
                )
            new += len(e.d["body"]["libE_info"]["H_rows"])
    # reason for the end
    flag = bool(outs) and outs[-1].d["flag"] == 1 and outs[-1].t > allocs[-1].t
    if allocs:
        H = allocs[-1].d["H"]
    else:
        H = run.H
    met = criteria_met(case, H, n0, started0, ended0)
    t_stop = next((e.t for e in run.ev if e.kind == "msend" and e.d["tag"] in (STOP_TAG, PERSIS_STOP) and e.d["body"] != 21 or
                   e.kind == "msend" and e.d["tag"] == PERSIS_STOP), None)
    by_wall = wall is not None and t_stop is not None and t_stop - t0 >= wall - 5e-3
    require(
        flag or met or by_wall,
        lambda: f"the run ended although no exit criterion of {ex} was met and nobody asked for it\n{tail()}",
        "run ends early",
    )
    # exit flag
    t_main = max([e.t for e in run.ev if e.kind == "alloc_out" or (is_work(e) and e.d["tag"] != PERSIS_STOP)], default=0)
    t_fin = next((e.t for e in run.ev if e.kind == "msend" and e.d["tag"] == STOP_TAG and e.d["body"] == 20), float("inf"))
    outstanding = 0
    H = run.H
    outstanding = int(np.sum(H["sim_started"][n0:] & ~H["sim_ended"][n0:]))
    if outstanding:
        require(run.flag == 2, lambda: f"exit flag {run.flag} although {outstanding} points given out did not come back\n{tail()}", "exit flag")
    if run.flag == 2:
        require(
            wall is not None and by_wall_late(run, t0, wall, t_fin),
            lambda: f"exit flag 2, but the wall-clock limit had not passed\n{tail()}",
            "exit flag",
        )
        require(
            busy_at(run, t_main), lambda: f"exit flag 2 although no work was outstanding when the run was ended\n{tail()}", "exit flag"
        )
    else:
        require(run.flag == 0, lambda: f"exit flag {run.flag} for a run without errors\n{tail()}", "exit flag")
        require(
            met or flag or not busy_at(run, t_main),
            lambda: f"exit flag 0 although the wall clock cut the run short with work outstanding\n{tail()}",
            "exit flag",
        )
    return {"met": met, "flag": flag, "by_wall": by_wall, "given": new, "cut": outstanding, "H0": n0}


def by_wall_late(run, t0, wall, t_fin):
    return t_fin - t0 >= wall - 5e-3


def busy_at(run, t):
    """Workers that hold an order whose answer the manager has not read, or a persistent function, at time t."""
    busy, persis = set(), set()
    for e in run.ev:
        if t is not None and e.t > t:
            break
        if is_work(e):
            busy.add(e.d["w"])
            if "persistent" in e.d["body"]["libE_info"]:
                persis.add(e.d["w"])
        elif e.kind == "mget":
            busy.discard(e.d["w"])
    # a persistent function counts until its return was read
    src = {e.d["serial"]: e for e in run.ev if e.kind == "ret"}
    for e in run.ev:
        if t is not None and e.t > t:
            break
        if e.kind == "mget" and e.d["serial"] in src:
            persis.discard(e.d["w"])
    return busy | persis


# ------------------------------------------------------------------ C05


def shutdown(run, case):
    tail = run.tail
    ids = set(range(1, run.nw + 1)) | ({0} if run.gom else set())
    fin = {}
    for e in run.ev:
        if e.kind == "msend" and e.d["tag"] == STOP_TAG and e.d["body"] == 20:
            fin.setdefault(e.d["w"], e.t)
    require(set(fin) == ids, lambda: f"stop signals went to {sorted(fin)} of {sorted(ids)}\n{tail()}", "worker without stop signal")
    ended = {e.d["w"] for e in run.ev if e.kind == "wend"}
    require(ids <= ended | ({0} if run.gom else set()), lambda: f"workers {ids - ended} did not leave their loop\n{tail()}", "worker loop not left")
    # persistent functions: told to stop and returned before the worker is stopped
    told = {}
    src = {e.d["serial"]: e for e in run.ev if e.kind == "ret"}
    alive = {}
    seen_stop = {}
    stats = {"persis_stopped": 0, "final_rows": 0, "late": 0}
    ended_rows, informed = set(), set()
    rows_of = {}
    n0 = len(run.H0) if run.H0 is not None else 0
    if n0:
        names = run.H0.dtype.names
        for i in range(n0):
            if "sim_ended" not in names or run.H0["sim_ended"][i]:
                ended_rows.add(i)
            if "gen_informed" in names and run.H0["gen_informed"][i]:
                informed.add(i)
    outs = {e.d["serial"]: e for e in run.ev if e.kind in ("ret", "ps_send")}
    n_gens = len({e.d["w"] for e in run.ev if is_work(e) and e.d["tag"] == GEN})
    for e in run.ev:
        if e.kind == "call" and e.d["info"].get("persistent"):
            alive[e.d["w"]] = e.d["serial"]
        elif e.kind == "mget" and e.d["serial"] in outs:
            o = outs[e.d["serial"]]
            if o.kind == "ret" and alive.get(e.d["w"]) == o.d["serial"]:
                alive.pop(e.d["w"])
                told.pop(e.d["w"], None)
            if o.d["role"] == "sim":
                status = o.d["out"][2] if isinstance(o.d.get("out"), tuple) and len(o.d["out"]) > 2 else None
                if not (o.kind == "ret" and status in (11, 12)) or case.get("use_ret_sim"):
                    ended_rows.update(int(r) for r in o.d["rows"])
                    if fin or told:
                        stats["late"] += 1
        elif e.kind == "msend":
            w, tag, body = e.d["w"], e.d["tag"], e.d["body"]
            if is_work(e) and tag == GEN:
                informed.update(int(r) for r in body["libE_info"]["H_rows"] if int(r) in ended_rows)
            if tag == PERSIS_STOP:
                require(w not in told, lambda: f"worker {w} got two persistent stop signals\n{tail()}", "two persistent stops")
                told[w] = e.t
                rows = [int(r) for r in body["libE_info"]["H_rows"]] if isinstance(body, dict) else []
                if rows:
                    require(case.get("final"), lambda: f"final rows were sent to worker {w} without final_gen_send\n{tail()}", "unwanted final rows")
                    require(
                        set(rows) <= ended_rows - informed and len(set(rows)) == len(rows),
                        lambda: f"final rows {rows} sent to worker {w}; finished and unseen were {sorted(ended_rows - informed)}\n{tail()}",
                        "final rows",
                    )
                if case.get("final") and n_gens == 1:
                    gen_w = {x.d["w"] for x in run.ev if is_work(x) and x.d["tag"] == GEN}
                    if w in gen_w:
                        require(
                            set(rows) == ended_rows - informed,
                            lambda: f"final rows {rows} sent to worker {w}; finished and unseen were {sorted(ended_rows - informed)}\n{tail()}",
                            "final rows",
                        )
                stats["final_rows"] += len(rows)
                informed.update(rows)
            if tag == STOP_TAG and body == 20 and w in alive:
                raise Violation(
                    f"worker {w} was stopped before its persistent function had been told to stop and had returned\n{tail()}",
                    "persistent function not stopped first",
                )
        elif e.kind == "ps_recv" and e.d["tag"] == PERSIS_STOP:
            stats["persis_stopped"] += 1
    # a user function that was alive when told must have got the signal
    ret_t = {}
    for e in run.ev:
        if e.kind == "ret":
            ret_t.setdefault(e.d["w"], []).append(e.t)
    for e in run.ev:
        if e.kind == "msend" and e.d["tag"] == PERSIS_STOP:
            w = e.d["w"]
            # was the function already back when the signal was sent?
            calls = [x for x in run.ev if x.kind == "call" and x.d["w"] == w and x.t < e.t]
            rets = [x for x in run.ev if x.kind in ("ret", "exc") and x.d["w"] == w and x.t < e.t]
            if len(calls) > len(rets):
                got = [x for x in run.ev if x.kind == "ps_recv" and x.d["w"] == w and x.t > e.t and x.d["tag"] == PERSIS_STOP]
                own = case.get("popts", {}).get("own") or case.get("psim", {}).get("leave")
                require(got or own, lambda: f"the persistent function on worker {w} never got its stop signal\n{tail()}", "stop signal not received")
                if got and isinstance(e.d["body"], dict):
                    require(
                        got[0].d["rows"] is not None and list(got[0].d["rows"]) == list(e.d["body"]["libE_info"]["H_rows"])
                        and (not len(got[0].d["rows"]) or len(got[0].d["calc_in"]) == len(got[0].d["rows"])),
                        lambda: f"worker {w} got {got[0]} for the final rows {e.d['body']['libE_info']['H_rows']}\n{tail()}",
                        "final rows not received",
                    )
    if run.flag != 2:
        H = run.H
        lost = np.flatnonzero(H["sim_started"][n0:] & ~H["sim_ended"][n0:]) + n0
        require(not len(lost), lambda: f"results of points {lost} were never recorded\n{tail()}", "results lost at the end")
    return stats


# ------------------------------------------------------------------ C07


def cancelling(run, case, ref=None):
    """Cancelled points are not evaluated; running ones are killed once, on their worker only, if the option is on."""
    tail = run.tail
    rows = []  # per row: cancel flag as the manager knows it
    cancel = {}
    running = {}  # row -> worker
    ended = set()
    outs = {e.d["serial"]: e for e in run.ev if e.kind in ("ret", "ps_send")}
    n = len(run.H0) if run.H0 is not None else 0
    if n and "cancel_requested" in run.H0.dtype.names:
        cancel = {i: True for i in range(n) if run.H0["cancel_requested"][i]}
    kills = []
    signalled = {}  # row -> number of signals
    stats = {"cancel_pending": 0, "cancel_running": 0, "kills": 0, "given": 0}
    due = set()
    last_in = None
    for e in run.ev:
        if e.kind == "mget" and e.d["serial"] in outs:
            o = outs[e.d["serial"]]
            if o.d["role"] == "gen":
                D = o.d["out"][0] if isinstance(o.d["out"], tuple) else o.d["out"]
                final = o.kind == "ret" and isinstance(o.d["out"], tuple) and len(o.d["out"]) > 2 and o.d["out"][2] in (11, 12)
                if D is None or (final and not case.get("use_ret")):
                    continue
                ids = [int(i) for i in D["sim_id"]] if "sim_id" in D.dtype.names else list(range(n, n + len(D)))
                for j, i in enumerate(ids):
                    if "cancel_requested" in D.dtype.names:
                        was = cancel.get(i, False)
                        cancel[i] = bool(D["cancel_requested"][j])
                        if cancel[i] and not was:
                            if i in running:
                                stats["cancel_running"] += 1
                                due.add(i)
                            elif i not in ended:
                                stats["cancel_pending"] += 1
                n = max(n, max(ids, default=-1) + 1)
            else:
                for r in o.d["rows"]:
                    ended.add(int(r))
                    running.pop(int(r), None)
                    due.discard(int(r))
        elif e.kind == "alloc_in":
            H = e.d["H"]
            for i in range(len(H)):
                require(
                    bool(H["cancel_requested"][i]) == cancel.get(i, False),
                    lambda: f"row {i}: cancel_requested is {H['cancel_requested'][i]}, requested: {cancel.get(i, False)}\n{tail()}",
                    "cancellation mark",
                )
            e.d["due"] = set(due)
            last_in = e
        elif is_work(e) and e.d["tag"] == SIM:
            for r in e.d["body"]["libE_info"]["H_rows"]:
                r = int(r)
                require(not cancel.get(r), lambda: f"cancelled point {r} was given out for evaluation\n{tail()}", "cancelled point evaluated")
                running[r] = e.d["w"]
                stats["given"] += 1
        elif e.kind == "msend" and e.d["tag"] == STOP_TAG and e.d["body"] == 21:
            w = e.d["w"]
            stats["kills"] += 1
            require(case.get("kill"), lambda: f"kill signal to worker {w} although kill_canceled_sims is off\n{tail()}", "kill although off")
            mine = [r for r, x in running.items() if x == w and cancel.get(r)]
            fresh = [r for r in mine if r not in signalled]
            require(mine, lambda: f"kill signal to worker {w}, which runs no cancelled simulation\n{tail()}", "kill for the wrong worker")
            require(fresh, lambda: f"second kill signal to worker {w} for points {mine}\n{tail()}", "killed twice")
            for r in mine:
                signalled[r] = 1
                due.discard(r)
    if case.get("kill"):
        # a point cancelled while running must have been signalled by the time of the next allocation call but one
        allocs = [e for e in run.ev if e.kind == "alloc_in"]
        for a, b in zip(allocs, allocs[1:]):
            left = a.d["due"] & b.d["due"]
            require(not left, lambda: f"points {sorted(left)} were cancelled while running, but no kill signal was sent\n{tail()}", "no kill signal")
    return stats
