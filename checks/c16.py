"""C16: workers call user functions as documented and pass back all they return."""
import copy
import functools
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, real, work
from vlib.core import Target, Violation, require
from vlib.judge import clean_run
from vlib.ens import PERSIS_STOP, STOP_TAG

TECHNIQUE = "property-based testing: whole runs with generated signatures and return forms against the work orders sent; recorded message histories of persistent functions against the queue of messages"
RULE = (
    "(calls) user functions of generated flavour (plain, lambda, bound method, callable object, partial, decorated, keyword-only "
    "extras, defaults) with 0-4 of the documented arguments and every documented form of return; what they are called with must be what the manager's "
    "work order says and what they return must be in the history and persis_info. (exchange) persistent generators and "
    "simulators on generated message schedules, waiting or polling, leaving by themselves or told to: all they receive must be, in "
    "order and once, what the manager sent, and the manager must receive all they sent. (poll) persistent simulators in "
    "worker processes that also look for manager signals through the executor while work and stop signals arrive. "
    "Non-trivial: two different flavours or forms (calls); at least three exchanges (exchange, poll)."
)
ASSUMPTIONS = [
    "an ordinary generator that is the only one returns at least one point",
    "persistent functions take all four arguments (they need libE_info), and orders given to them while they run have rows",
]
CAP_S = 200


def shard_setup():
    ens.quiet_logs()


# ------------------------------------------------------------------ calls


def flavour(kind, n, core):
    """A user function of n arguments that calls core([args])."""
    names = ["H", "persis_info", "specs", "libE_info"][:n]
    env = {"core": core, "functools": functools}
    args = ", ".join(names)
    lst = "[" + args + "]"
    if kind == "plain":
        src = f"def f({args}):\n    return core({lst})\n"
    elif kind == "lambda":
        src = f"f = lambda {args}: core({lst})\n"
    elif kind == "names":
        a = ", ".join("abcd"[:n])
        src = f"def f({a}):\n    return core([{a}])\n"
    elif kind == "defaults":
        a = ", ".join([names[0]] + [x + "=None" for x in names[1:]]) if n else ""
        src = f"def f({a}):\n    return core({lst})\n"
    elif kind == "method":
        src = f"class A:\n    def m(self, {args}):\n        return core({lst})\nf = A().m\n"
    elif kind == "object":
        src = f"class A:\n    def __call__(self, {args}):\n        return core({lst})\nf = A()\nf.__name__ = 'obj'\n"
    elif kind == "static":
        src = f"class A:\n    @staticmethod\n    def m({args}):\n        return core({lst})\nf = A.m\n"
    elif kind == "partial":
        src = f"def g(scale, {args}):\n    return core({lst})\nf = functools.partial(g, 3)\nf.__name__ = 'part'\n"
    elif kind == "kwpartial":
        src = f"def g({args + ', ' if n else ''}scale):\n    return core({lst})\nf = functools.partial(g, scale=3)\nf.__name__ = 'part'\n"
    elif kind == "kwonly":
        src = f"def f({args + ', ' if n else ''}*, tol=1e-3):\n    return core({lst})\n"
    elif kind == "kwargs":
        src = f"def f({args + ', ' if n else ''}**more):\n    return core({lst})\n"
    elif kind == "wrapped":
        src = (f"def g({args}):\n    return core({lst})\n"
               "@functools.wraps(g)\ndef f(*a, **k):\n    return g(*a, **k)\n")
    elif kind == "annotated":
        a = ", ".join(f"{x}: object" for x in names)
        src = f"def f({a}) -> tuple:\n    return core({lst})\n"
    else:
        raise AssertionError(kind)
    exec(src, env)
    return env["f"]


FLAVOURS = ["plain", "lambda", "names", "defaults", "method", "object", "static", "partial", "kwpartial", "kwonly", "kwargs", "wrapped", "annotated"]
FORMS = ["a", "a,pi", "a,int", "a,str", "a,pi,int", "a,pi,str", "[a,pi]", "a,empty", "a,none,int"]
NOFORMS = ["none", "none,pi", "none,int", "none,pi,int"]


def give(form, out, pi):
    return {
        "a": lambda: out,
        "a,pi": lambda: (out, pi),
        "a,int": lambda: (out, 33),
        "a,str": lambda: (out, "all well"),
        "a,pi,int": lambda: (out, pi, 31),
        "a,pi,str": lambda: (out, pi, "fine"),
        "[a,pi]": lambda: [out, pi],
        "a,empty": lambda: (out, {}),
        "a,none,int": lambda: (out, None, 33),
        "none": lambda: None,
        "none,pi": lambda: (None, pi),
        "none,int": lambda: (None, 34),
        "none,pi,int": lambda: (None, pi, 33),
    }[form]()


def calls(case, rec):
    H0 = None
    run = work.init_run(case, H0)
    seen = {"sim": [], "gen": []}
    persis = {}

    def core(role):
        spec = case[role]

        def f(args):
            k = len(seen[role])
            form = spec["forms"][k % len(spec["forms"])]
            snap = [np.array(args[0], copy=True)] if args else []
            if len(args) > 1:
                snap.append(copy.deepcopy(args[1]))
            if len(args) > 2:
                snap.append(args[2])
            if len(args) > 3:
                snap.append({a: (b if a in ("comm", "executor") else copy.deepcopy(b)) for a, b in args[3].items()})
            seen[role].append(snap)
            pi = {f"{role}_mark": k, "last": (role, k)}
            if role == "gen":
                n = case["batch"]
                out = np.zeros(n, dtype=[("x", float, (2,))])
                for j in range(n):
                    out["x"][j] = work.xval(run.total + j)
                run.total += n
            else:
                n = len(args[0]) if args else 1
                out = np.zeros(n, dtype=[("f", float)])
                if args:
                    out["f"] = [work.fval(x) for x in args[0]["x"]]
                else:
                    out["f"] = 7.25
            persis.setdefault(role, []).append((form, pi))
            return give(form, out, pi)

        return f

    user = {"s": {"a": 1}, "arr": [1, 2]}
    sim_f = flavour(case["sim"]["kind"], case["sim"]["n"], core("sim"))
    gen_f = flavour(case["gen"]["kind"], case["gen"]["n"], core("gen"))
    sim_specs = {"sim_f": sim_f, "in": ["x", "sim_id"], "out": [("f", float)], "user": user}
    gen_specs = {"gen_f": gen_f, "in": ["sim_id", "f"], "out": [("x", float, (2,))], "user": {"g": 5}}
    pi0 = {w: {"id": w} for w in range(case["nw"] + 1)}
    if case["alloc"] == "one":
        pi0.update(next_to_give=0, total_gen_calls=0)
    alloc_specs = {"alloc_f": run.wrap_alloc(work.supplied_alloc(case["alloc"])), "user": dict({} if case["alloc"] == "one" else {"num_active_gens": 1})}
    if case["alloc"] == "gswf" and case["per"] and case["sim"]["n"]:
        alloc_specs["user"]["give_all_with_same_priority"] = True
    run.go(case["nw"], sim_specs, gen_specs, {"sim_max": case["sim_max"]}, pi0, alloc_specs, {"gen_on_manager": case["gom"]})
    try:
        clean_run(run)
    except Violation as v:
        raise Violation(str(v) + f"\nseen: {seen}", v.sig) from None

    # the work orders, as sent
    sent = {"sim": [], "gen": []}
    ms = run.of("msend")
    for i, e in enumerate(ms):
        b = e.d["body"]
        if isinstance(b, dict) and e.d["tag"] in (1, 2):
            rows = next((x.d["body"] for x in ms[i + 1 :] if x.d["w"] == e.d["w"]), None)
            if not len(b["libE_info"]["H_rows"]):
                rows = np.zeros(0, dtype=[])
            sent["sim" if e.d["tag"] == 1 else "gen"].append((e.d["w"], b, rows))
    for role in ("sim", "gen"):
        n = case[role]["n"]
        got = seen[role]
        require(len(got) == len(sent[role]), lambda: f"{len(sent[role])} {role} calls were ordered, {len(got)} made", "number of calls")
        left = list(sent[role])
        for snap in got:
            require(len(snap) == n, lambda: f"{role} function of {n} arguments called with {len(snap)}", "number of arguments")
            if not n:
                continue
            if role == "gen":
                w, body, rows = left.pop(0)
            else:
                j = next((j for j, (_, b, r) in enumerate(left) if list(b["libE_info"]["H_rows"]) == list(snap[0]["sim_id"])), None)
                require(j is not None, lambda: f"sim call with rows {snap[0]} was not ordered", "first argument")
                w, body, rows = left.pop(j)
            require(len(snap[0]) == 0 if not len(rows) else eq(snap[0], rows), lambda: f"{role} input is {snap[0]}, sent {rows}", "first argument")
            if n > 1:
                want = body["persis_info"] if body["persis_info"] is not None else {}
                require(type(snap[1]) is type(want) and snap[1] == want, lambda: f"{role} persis_info is {snap[1]}, sent {want}", "persis_info argument")
            if n > 2:
                mine = sim_specs if role == "sim" else gen_specs
                for key in ("in", "out", "user"):
                    require(snap[2][key] == mine[key], lambda: f"{role}_specs[{key!r}] is {snap[2][key]}", "specs argument")
            if n > 3:
                info = snap[3]
                require(info["workerID"] == w, lambda: f"workerID is {info['workerID']}, the order went to {w}", "libE_info workerID")
                require(list(info["H_rows"]) == list(body["libE_info"]["H_rows"]), lambda: f"H_rows {info['H_rows']}", "libE_info H_rows")
                require("comm" in info and "executor" in info, "libE_info lacks comm or executor", "libE_info entries")
                if role == "gen":
                    for key in body["libE_info"]:
                        require(key in info, f"libE_info lacks {key}", "libE_info entries")

    # what they returned
    H = run.H
    forms = [f for f, _ in persis.get("sim", [])]
    if case["sim"]["n"]:
        for k, snap in enumerate(seen["sim"]):
            form = forms[k]
            for s in snap[0]["sim_id"]:
                require(H["sim_ended"][s], f"point {s} was evaluated but is not marked as ended", "sim_ended")
                want = 0.0 if form.startswith("none") else work.fval(H["x"][s])
                require(H["f"][s] == want, lambda: f"point {s}: f is {H['f'][s]}, the call returned ({form}) {want}", "returned value")
    else:
        want = sorted(0.0 if f.startswith("none") else 7.25 for f in forms)
        require(sorted(H["f"][H["sim_ended"]].tolist()) == want, lambda: f"returned values {H['f']}, expected {want}", "returned value")
    for i in range(len(H)):
        require(list(H["x"][i]) == work.xval(i), lambda: f"point {i} is {H['x'][i]}", "generated value")
    marks = [v for k, v in run.persis_info.items() if isinstance(v, dict)]
    for role in ("sim", "gen"):
        ks = [k for k, (f, _) in enumerate(persis.get(role, [])) if "pi" in f]
        if ks and case["alloc"] != "one":
            got = [m[f"{role}_mark"] for m in marks if f"{role}_mark" in m]
            require(got and set(got) <= set(ks) and (max(ks) in got), lambda: f"persis_info returned by {role} calls {ks} ended as {run.persis_info}", "returned persis_info")
        for k, v in run.persis_info.items():
            if isinstance(v, dict) and isinstance(k, int):
                require(v.get("id") == k, lambda: f"persis_info[{k}] is {v}", "persis_info kept")
    for role in ("sim", "gen"):
        rec.label(f"{role} {case[role]['kind']} {case[role]['n']}")
        for f in set(case[role]["forms"]):
            rec.label(f"{role} returns {f}")
    rec.nontrivial(len(seen["sim"]) >= 2 and len(set(forms)) >= 2 and case["sim"]["n"] != case["gen"]["n"])


def calls_strategy():
    def role(forms):
        return st.fixed_dictionaries(
            {"kind": st.sampled_from(FLAVOURS), "n": st.integers(0, 4), "forms": st.lists(st.sampled_from(forms), min_size=1, max_size=5)}
        )

    return st.fixed_dictionaries(
        {
            "nw": st.integers(1, 3),
            "delays": work.delays,
            "alloc": st.sampled_from(["gswf", "gswf", "one"]),
            "per": st.booleans(),
            "gom": st.sampled_from([False, False, True]),
            "sim": role(FORMS + NOFORMS),
            "gen": role(FORMS),
            "batch": st.integers(2, 4),
            "sim_max": st.integers(2, 10),
        }
    )


# ------------------------------------------------------------------ exchange


def eq(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return type(a) is type(b) and a == b


def exchange(run, case, rec):
    clean_run(run)
    msg = {v: k for k, v in ((i, s) for i, s in run.msg_serial.items()) if v is not None}
    bykey = {id(m): m for m in run.keep}
    nrecv = nsend = 0
    stops = 0
    for w in {e.d["w"] for e in run.of("call")}:
        evs = [e for e in run.ev if e.d.get("w") == w]
        queue = []  # manager's messages not yet received, as (kind, tag, body, rows)
        inside = None
        got_stop = False
        half = None
        for e in evs:
            if e.kind == "msend":
                b = e.d["body"]
                if isinstance(b, dict) and "libE_info" in b:
                    half = (e.d["tag"], b)
                    if not len(b["libE_info"]["H_rows"]):
                        queue.append(("work", half[0], b, None))
                        half = None
                elif isinstance(b, np.ndarray):
                    require(half is not None, f"worker {w} is sent rows without an order", "rows without an order")
                    queue.append(("work", half[0], half[1], b))
                    half = None
                elif half is not None and not isinstance(b, dict):
                    queue.append(("signal", e.d["tag"], b, None))
                elif e.d["tag"] in (STOP_TAG, PERSIS_STOP):
                    queue.append(("signal", e.d["tag"], b, None))
            elif e.kind == "call":
                require(queue and queue[0][0] == "work", lambda: f"worker {w} calls a function, waiting messages {queue}", "call without an order")
                k, tag, body, rows = queue.pop(0)
                require(eq(e.d["calc_in"], rows) if rows is not None else len(e.d["calc_in"]) == 0, lambda: f"worker {w} called with {e.d['calc_in']}, sent {rows}", "input of a call")
                inside = body["libE_info"].get("persistent", False)
                got_stop = False
            elif e.kind == "ps_recv":
                nrecv += 1
                d = e.d
                if got_stop and d["tag"] in (STOP_TAG, PERSIS_STOP) and d["calc_in"] is None:
                    continue  # the signal is kept for the worker
                require(queue, lambda: f"worker {w} received {d} although nothing was sent", "received something not sent")
                k, tag, body, rows = queue.pop(0)
                require(d["tag"] == tag, lambda: f"worker {w} received tag {d['tag']}, sent {tag}", "tag received")
                if k == "work":
                    require(d["calc_in"] is not None and eq(d["calc_in"], rows), lambda: f"worker {w} received rows {d['calc_in']}, sent {rows}", "rows received")
                    require(list(d["rows"]) == list(body["libE_info"]["H_rows"]), lambda: f"worker {w} received H_rows {d['rows']}, sent {body}", "H_rows received")
                    require(d["work"]["H_fields"] == body["H_fields"], lambda: f"worker {w} received fields {d['work']['H_fields']}, sent {body}", "H_fields received")
                else:
                    require(d["calc_in"] is None, lambda: f"worker {w}: rows with a signal {d}", "rows with a signal")
                if tag in (STOP_TAG, PERSIS_STOP):
                    got_stop = k == "signal"
                    stops += 1
            elif e.kind == "ret":
                if inside:
                    # what came too late is not handed to anyone; signals remain for the worker
                    while queue and queue[0][0] == "work":
                        queue.pop(0)
                inside = None
        # everything sent arrives, in order and unaltered
        sent = [e.d["serial"] for e in evs if e.kind in ("ps_send", "ret")]
        put = [e.d["serial"] for e in evs if e.kind == "wput" and e.d["serial"] is not None and e.d["serial"] > 0]
        gotm = [e.d["serial"] for e in evs if e.kind == "mget" and e.d["serial"] is not None and e.d["serial"] > 0]
        require(put == sent[: len(put)], lambda: f"worker {w} produced {sent}, its messages are {put}", "messages of a worker")
        require(gotm == put[: len(gotm)], lambda: f"worker {w} sent {put}, the manager received {gotm}", "messages received by the manager")
        if run.flag in (0, 1):
            require(len(gotm) == len(sent), lambda: f"worker {w} produced {sent}, the manager received {gotm}", "messages not received by the manager")
        outs = {e.d["serial"]: e.d for e in evs if e.kind == "ps_send"}
        for s, d in outs.items():
            m = bykey.get(msg.get(s))
            if m is None or not (isinstance(m, tuple) and len(m) == 2 and isinstance(m[1], dict) and "calc_out" in m[1]):
                continue
            nsend += 1
            require(eq(m[1]["calc_out"], d["out"]) or (m[1]["calc_out"] is None and d["out"] is None), lambda: f"worker {w} sent {d['out']}, the message has {m[1]['calc_out']}", "data sent")
    rec.label(case.get("alloc", "fuzz"))
    if case.get("psim"):
        rec.label("persistent simulators")
    if case.get("popts", {}).get("active"):
        rec.label("polling generator")
    if stops:
        rec.label("stop signals", stops)
    rec.nontrivial(nrecv >= 2 and nrecv + nsend >= 4, interest=nrecv)


def exchange_supplied(case, rec):
    exchange(work.run_supplied(case), case, rec)


def exchange_fuzz(case, rec):
    exchange(work.run_fuzz(case), case, rec)


def fuzz_strategy():
    return work.fuzz_strategy().map(lambda c: dict(c, persis=True))


# ------------------------------------------------------------------ poll


def build_poll(case):
    from libensemble.alloc_funcs.start_only_persistent import only_persistent_gens
    from libensemble.executors.executor import Executor
    from libensemble.message_numbers import EVAL_GEN_TAG, EVAL_SIM_TAG, FINISHED_PERSISTENT_GEN_TAG, FINISHED_PERSISTENT_SIM_TAG
    from libensemble.tools.persistent_support import PersistentSupport

    Executor()

    def sim_f(H, persis_info, specs, libE_info):
        import time

        ps = PersistentSupport(libE_info, EVAL_SIM_TAG)
        ex = libE_info["executor"]
        persis_info.setdefault("seen", [])
        k = 0
        while True:
            out = np.zeros(len(H), dtype=[("f", float)])
            out["f"] = H["x"] * 2 + 1
            persis_info["seen"] += [int(i) for i in libE_info["H_rows"]]
            kinds = case["polls"]
            for j in range(kinds[k % len(kinds)]):  # look for signals while "working"
                ex.manager_poll()
                time.sleep(0.0005)
            if case["late"]:
                time.sleep(0.003)
                ex.manager_poll()
            ps.send(out)
            for j in range(kinds[(k + 1) % len(kinds)]):  # ... and when an order may arrive any moment
                ex.manager_poll()
                if j == 0:
                    time.sleep(0.002)
            k += 1
            tag, wk, H = ps.recv()
            if tag in (STOP_TAG, PERSIS_STOP):
                again = ps.recv(blocking=False) if case["again"] and not isinstance(wk, dict) else (tag,)
                persis_info["again"] = again[0] in (STOP_TAG, PERSIS_STOP)
                break
        return None, persis_info, FINISHED_PERSISTENT_SIM_TAG

    def gen_f(H, persis_info, specs, libE_info):
        ps = PersistentSupport(libE_info, EVAL_GEN_TAG)
        tag = None
        n = 0
        ex = libE_info["executor"]
        while tag not in (STOP_TAG, PERSIS_STOP):
            out = np.zeros(case["batch"], dtype=[("x", float)])
            out["x"] = np.arange(n, n + case["batch"])
            n += case["batch"]
            if case["gpoll"]:
                ps.send(out)
                for _ in range(case["gpoll"]):
                    ex.manager_poll()
                tag, wk, calc_in = ps.recv()
            else:
                tag, wk, calc_in = ps.send_recv(out)
            if calc_in is not None:
                for i, f in zip(calc_in["sim_id"], calc_in["f"]):
                    persis_info.setdefault("back", []).append((int(i), float(f)))
        return None, persis_info, FINISHED_PERSISTENT_GEN_TAG

    return (
        {"sim_f": sim_f, "in": ["x"], "out": [("f", float)]},
        {"gen_f": gen_f, "persis_in": ["sim_id", "f"], "out": [("x", float)]},
        {"sim_max": case["sim_max"]},
        {w: {} for w in range(5)},
        {"alloc_f": only_persistent_gens, "user": {"alt_type": True, "async_return": case["async"]}},
        {"gen_on_manager": False, "disable_log_files": True, "disable_resource_manager": True, "final_gen_send": case["final"]},
        None,
    )


def poll(case, rec):
    tmp = tempfile.mkdtemp(prefix="v16_")
    try:
        try:
            r = real.run_mode("local", "checks.c16:build_poll", case, case["nw"], tmp, timeout=40)
        except real.TimedOut as e:
            raise Violation(f"the run does not end\n{e}", "hang with executor polls") from None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    require(r["exc"] is None, lambda: f"the run fails: {r['exc']}", "error with executor polls")
    H, pi = r["H"], r["persis_info"]
    done = H[H["sim_ended"]]
    require(len(done) >= case["sim_max"], lambda: f"{len(done)} points were evaluated, expected {case['sim_max']}", "points evaluated")
    for row in done:
        require(row["f"] == row["x"] * 2 + 1, lambda: f"point {row}", "value")
    seen = [i for e in pi.values() if isinstance(e, dict) for i in e.get("seen", [])]
    require(sorted(seen) == sorted(int(i) for i in H["sim_id"][H["sim_started"]]), lambda: f"evaluated {sorted(seen)}", "points evaluated")
    if case["again"]:
        for w, e in pi.items():
            if isinstance(e, dict) and "again" in e:
                require(e["again"], f"worker {w}: after a stop signal a second receive does not see it", "stop signal seen again")
    back = [b for e in pi.values() if isinstance(e, dict) for b in e.get("back", [])]
    require(len(back) == len(set(back)), lambda: f"results given back twice: {back}", "results given back twice")
    require(len(back) == int(np.sum(H["gen_informed"])), lambda: f"{len(back)} results given back, {np.sum(H['gen_informed'])} marked", "results given back")
    rec.label("poll")
    rec.nontrivial(len(seen) >= 3 and sum(case["polls"]) > 0)


def poll_strategy():
    return st.fixed_dictionaries(
        {
            "nw": st.integers(2, 4),
            "batch": st.integers(1, 4),
            "sim_max": st.integers(1, 9),
            "polls": st.lists(st.integers(0, 6), min_size=1, max_size=3),
            "gpoll": st.sampled_from([0, 0, 1, 5]),
            "late": st.booleans(),
            "again": st.booleans(),
            "async": st.booleans(),
            "final": st.booleans(),
        }
    )


TARGETS = [
    Target("calls", calls_strategy, calls, 900, 20000),
    Target("supplied", lambda: work.supplied_strategy(allocs=("opg",), exits=("sim_max", "gen_max", "both"), psim=True), exchange_supplied, 900, 16000),
    Target("fuzz", fuzz_strategy, exchange_fuzz, 600, 12000),
    Target("poll", poll_strategy, poll, 120, 3000),
]
