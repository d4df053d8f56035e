"""C25: every calculation and every log message is accounted for in the output files."""
import datetime
import json
import os
import re
import shutil
import tempfile

import numpy as np

from vlib import real
from vlib.core import Target, Violation, require

TECHNIQUE = "property-based testing: whole runs with real workers whose user functions log and return by script and note down what they did, compared with ensemble.log and libE_stats.txt"
RULE = (
    "Runs with threads, worker processes, TCP clients and MPI ranks; ordinary and persistent generators; 1-3 workers; all log "
    "levels. User functions return every form and status, may raise, take some milliseconds, and log messages of all levels "
    "(arguments, percent signs, other alphabets, exception information, arguments changed after the call). Each call notes in a file what it "
    "did; libE_stats.txt must hold exactly one line for it (worker, points or generator number, kind, status, times that "
    "enclose it) and no others, ensemble.log must hold each message at or above the level exactly once, labelled with its worker, "
    "unaltered and in order, and none below; with log files disabled neither file exists. Non-trivial: at least two calls "
    "and one message."
)
ASSUMPTIONS = [
    "runs that end by wallclock_max, and calls still running when another call's error ends the run, are left out",
    "messages are logged through the package's logger tree (logging.getLogger('libensemble...'))",
]
CAP_S = 200

STATUS = {
    11: "Persis sim finished", 12: "Persis gen finished", 30: "Worker killed", 31: "Worker killed task on Error",
    32: "Worker killed task on Timeout", 33: "Task Failed during run", 34: "Task Failed to start", 35: "Completed",
    77: "77", 0: "Not set",
}
LEVELS = {"VDEBUG": 5, "DEBUG": 10, "INFO": 20, "WARNING": 30, "MANAGER_WARNING": 35, "ERROR": 40, "CRITICAL": 50}
KINDS = ["plain", "args", "percent", "unicode", "exc", "mutable", "object", "dict", "long"]
T0 = {}


def shard_setup():
    import libensemble.libE  # noqa: F401


class Obj:
    def __init__(self, n):
        self.n = n
        self.f = lambda: n  # cannot be pickled

    def __str__(self):
        return f"obj<{self.n}>"


def note(d):
    line = json.dumps(d) + "\n"
    fd = os.open(f"truth_{os.getpid()}_{d['w']}.jsonl", os.O_CREAT | os.O_APPEND | os.O_WRONLY, 0o600)
    os.write(fd, line.encode())
    os.close(fd)


def emit_logs(s, uid):
    """Logs the script's messages; returns [name, level, text] of each."""
    import logging

    out = []
    for i, (lev, kind, sub) in enumerate(s["logs"]):
        name = "libensemble" + (f".user.m{sub}" if sub else "")
        log = logging.getLogger(name)
        key = f"<{uid}/{i}>"
        n = LEVELS[lev]
        text = None
        if kind == "plain":
            text = f"{key} hello"
            log.log(n, text)
        elif kind == "args":
            text = f"{key} a 7 2.50"
            log.log(n, "%s a %d %.2f", key, 7, 2.5)
        elif kind == "percent":
            text = f"{key} 100% %s %d done"
            log.log(n, text)
        elif kind == "unicode":
            text = f"{key} \u00fcb\u00e9r \u6d4b\u8bd5 \U0001f600"
            log.log(n, text)
        elif kind == "exc":
            text = f"{key} failed"
            try:
                raise ValueError(f"inner {key}")
            except ValueError:
                log.log(n, text, exc_info=True)
        elif kind == "mutable":
            lst = [1, 2]
            text = f"{key} [1, 2]"
            log.log(n, "%s %s", key, lst)
            lst.append(3)
        elif kind == "object":
            text = f"{key} obj<4>"
            log.log(n, "%s %s", key, Obj(4))
        elif kind == "dict":
            text = f"{key} v=3 w=x"
            log.log(n, key + " v=%(v)d w=%(w)s", {"v": 3, "w": "x"})
        elif kind == "long":
            text = f"{key} " + "y" * 3000
            log.log(n, text)
        out.append([name, lev, text, kind])
    return out


def act(case, role, k, w, libE_info, rows):
    """The common part of all user functions: log, take time; returns script entry and the record to complete."""
    import time

    script = case[role]
    s = script[k % len(script)]
    d = {"role": role, "w": w, "rows": [int(r) for r in rows], "gen_count": libE_info.get("gen_count"), "t0": time.time()}
    d["logs"] = emit_logs(s, f"{role}{k}w{w}p{os.getpid()}")
    if s["ms"]:
        time.sleep(s["ms"] / 1000.0)
    return s, d


def finish(d, status):
    import time

    d["status"] = status
    d["t1"] = time.time()
    note(d)


def give(s, out, persis_info):
    f = s["form"]
    if f == "a":
        return out, 0
    if f == "pi":
        return (out, persis_info), 0
    if f == "st":
        return (out, s["status"]), s["status"]
    return (out, persis_info, s["status"]), s["status"]


def build(case):
    from libensemble import logger
    from libensemble.alloc_funcs.give_sim_work_first import give_sim_work_first
    from libensemble.alloc_funcs.start_only_persistent import only_persistent_gens
    from libensemble.message_numbers import EVAL_GEN_TAG, EVAL_SIM_TAG, FINISHED_PERSISTENT_GEN_TAG, PERSIS_STOP, STOP_TAG
    from libensemble.message_numbers import FINISHED_PERSISTENT_SIM_TAG
    from libensemble.tools.persistent_support import PersistentSupport

    logger.set_level(case["level"])

    def sim_f(H, persis_info, specs, libE_info):
        w = libE_info["workerID"]
        k = int(H["k"][0])
        s, d = act(case, "sim", k, w, libE_info, libE_info["H_rows"])
        if case["exc"] is not None and k == case["exc"]:
            finish(d, "Exception occurred")
            raise ValueError("planned failure")
        out = np.zeros(len(H), dtype=[("f", float)])
        if case["psim"]:
            ps = PersistentSupport(libE_info, EVAL_SIM_TAG)
            while True:
                tag, work, calc_in = ps.send_recv(out)
                if tag in (STOP_TAG, PERSIS_STOP):
                    break
                out = np.zeros(len(calc_in), dtype=[("f", float)])
            finish(d, "Persis sim finished")
            return None, persis_info, FINISHED_PERSISTENT_SIM_TAG
        r, status = give(s, out, persis_info)
        finish(d, STATUS.get(status, status))
        return r

    def points(n, start):
        out = np.zeros(n, dtype=[("k", int)])
        out["k"] = np.arange(start, start + n)
        return out

    def gen_f(H, persis_info, specs, libE_info):
        w = libE_info["workerID"]
        start = len(H)
        s, d = act(case, "gen", start, w, libE_info, [])
        r, status = give(s, points(case["batch"], start), persis_info)
        finish(d, STATUS.get(status, status))
        return r

    def pgen(H, persis_info, specs, libE_info):
        w = libE_info["workerID"]
        s, d = act(case, "gen", 0, w, libE_info, [])
        ps = PersistentSupport(libE_info, EVAL_GEN_TAG)
        tag = None
        n = 0
        while tag not in (STOP_TAG, PERSIS_STOP):
            tag, work, calc_in = ps.send_recv(points(case["batch"], n))
            n += case["batch"]
        d["logs"] += emit_logs(s, f"end{w}p{os.getpid()}")
        finish(d, "Persis gen finished")
        return None, persis_info, FINISHED_PERSISTENT_GEN_TAG

    sim_specs = {"sim_f": sim_f, "in": ["k"], "out": [("f", float)]}
    if case["persis"]:
        gen_specs = {"gen_f": pgen, "persis_in": ["f"], "out": [("k", int)]}
        alloc_specs = {"alloc_f": only_persistent_gens, "user": {"alt_type": True} if case["psim"] else {}}
    else:
        gen_specs = {"gen_f": gen_f, "in": ["sim_id"], "out": [("k", int)]}
        user = {"num_active_gens": 1}
        if case["multi"]:
            user["give_all_with_same_priority"] = True
            gen_specs["out"] = [("k", int), ("priority", float)]
        alloc_specs = {"alloc_f": give_sim_work_first, "user": user}
    if case["multi"] and not case["persis"]:
        orig = points

        def points(n, start):  # noqa: F811
            o = orig(n, start)
            out = np.zeros(n, dtype=[("k", int), ("priority", float)])
            out["k"] = o["k"]
            out["priority"] = [(case["prio"] >> (i % 8)) & 1 for i in range(n)]
            return out

    persis_info = {w: {} for w in range(0, case["nw"] + 1)}
    libE_specs = {"gen_on_manager": case["gom"], "disable_log_files": case["off"]}
    if case["rsets"]:
        libE_specs["stats_fmt"] = {"show_resource_sets": True}
        libE_specs["resource_info"] = {"cores_on_node": (4, 8)}
    return sim_specs, gen_specs, {"sim_max": case["n"]}, persis_info, alloc_specs, libE_specs, None


def ranges(rows):
    out = []
    for r in rows:
        if out and r == out[-1][1] + 1:
            out[-1][1] = r
        else:
            out.append([r, r])
    return "_".join(str(a) if a == b else f"{a}-{b}" for a, b in out)


STAT = re.compile(
    r"^(Manager|Worker) +(\d*) *: (sim_id|Gen no) +(\S+): (sim|gen) Time: ([\d.]+) Start: (\S+ \S+) End: (\S+ \S+)( rsets: \S.*?)? Status: (.*)$"
)
STARTEXIT = re.compile(r"^Manager +: (Starting|Exiting) ensemble at: ")


def stamp(s):
    return datetime.datetime.strptime(s, "%Y-%m-%d %H:%M:%S.%f").timestamp()


def run(case, rec):
    base = tempfile.mkdtemp(prefix="verif_c25_")
    try:
        try:
            r = real.run_mode(case["mode"], "checks.c25:build", case, case["nw"], base, timeout=60)
        except real.TimedOut as e:
            raise Violation(f"the run had not ended after 60 s: {e}", "run does not end")
        files = {}
        truth = []
        for f in sorted(os.listdir(base)):
            p = os.path.join(base, f)
            if f.startswith("truth_"):
                with open(p) as h:
                    truth += [json.loads(x) for x in h]
            elif os.path.isfile(p):
                with open(p, errors="replace") as h:
                    files[f] = h.read()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    mode = case["mode"]
    fail = case["exc"] is not None and any(t["status"] == "Exception occurred" for t in truth)
    if not fail:
        require(r["exc"] is None, lambda: f"the run failed: {r['exc']}\n{r['text'][-2000:]}", "run fails")
    rec.label(f"mode {mode}")
    rec.label(f"level {case['level']}")
    if case["off"]:
        rec.label("log files off")
        got = [f for f in files if "ensemble" in f or "stats" in f]
        require(not got, lambda: f"log files are disabled, found {got}", "log files although disabled")
        rec.nontrivial(len(truth) > 1)
        return
    require("ensemble.log" in files and "libE_stats.txt" in files, lambda: f"files {list(files)}", "output file missing")
    if fail:
        # only the failing call itself and calls that had ended before it on the same worker are judged
        bad = [t for t in truth if t["status"] == "Exception occurred"]
        t_bad = min(t["t1"] for t in bad)
        truth = [t for t in truth if t["t1"] < t_bad - 0.2 or t is bad[0]]
        rec.label("a call failed")
    stats(case, truth, files["libE_stats.txt"], fail)
    nlog = logs(case, truth, files["ensemble.log"])
    rec.label("messages", nlog)
    rec.nontrivial(len(truth) > 1 and nlog > 0)


def stats(case, truth, text, fail):
    lines = text.splitlines()
    parsed = []
    ends = []
    for ln in lines:
        m = STAT.match(ln)
        if m:
            parsed.append(m.groups())
            continue
        m = STARTEXIT.match(ln)
        require(m is not None, lambda: f"libE_stats.txt has the line {ln!r}", "unexpected line in the statistics file")
        ends.append(m.group(1))
    if not fail:
        require(ends == ["Starting", "Exiting"], lambda: f"start and exit lines: {ends}\n{text[-1500:]}", "start and exit lines")
    for t in truth:
        what = ranges(t["rows"]) if t["role"] == "sim" else str(t["gen_count"])
        mine = [p for p in parsed if p[4] == t["role"] and p[3] == what]
        require(
            len(mine) == 1,
            lambda: f"{len(mine)} lines in libE_stats.txt for the {t['role']} call on {what} of worker {t['w']} ({case['mode']}, level {case['level']})\n{text[-2500:]}",
            f"number of statistics lines of a call",
        )
        p = mine[0]
        parsed.remove(p)
        lab = (p[0], p[1])
        want = ("Worker", str(t["w"])) if t["w"] else ("Manager", "")
        if t["w"] == 0 and lab == ("Worker", "0"):
            lab = want
        require(lab == want, lambda: f"the statistics line of a call on worker {t['w']} says {lab} ({case['mode']})\n{text[-1500:]}",
                "worker in the statistics line")
        require(p[2] == ("sim_id" if t["role"] == "sim" else "Gen no"), lambda: f"line {p}", "kind in the statistics line")
        require(p[9] == str(t["status"]), lambda: f"status {p[9]!r} in the line of a call that ended with {t['status']!r}\n{text[-1500:]}",
                "status in the statistics line")
        a, b = stamp(p[6]), stamp(p[7])
        require(
            a <= t["t0"] + 1e-6 and b + 0.0011 >= t["t1"] and abs(float(p[5]) - (b - a)) < 0.0021,
            lambda: f"times in the line {p} do not enclose the call from {t['t0']} to {t['t1']}",
            "times in the statistics line",
        )
        require(bool(p[8]) == bool(case["rsets"]), lambda: f"resource sets in the line {p}", "resource sets in the statistics line")
    if not fail:
        require(not parsed, lambda: f"lines in libE_stats.txt for calls that did not happen: {parsed}", "statistics line without a call")


def logs(case, truth, text):
    n = 0
    level = LEVELS[case["level"]]
    by = {}
    for t in truth:
        for name, lev, msg, kind in t["logs"]:
            key = msg.split(" ", 1)[0]
            on = LEVELS[lev] >= level
            n += on
            line = re.compile(
                r"^\[(\d+)\]  \S+ \S+ " + re.escape(name) + r" \(" + lev + r"\): " + re.escape(msg) + r"$", re.M
            )
            found = [(m.start(), int(m.group(1))) for m in line.finditer(text)]
            cnt = text.count("): " + key)
            require(
                len(found) == cnt == int(on),
                lambda: f"message {msg[:200]!r} ({lev}, {kind}) of worker {t['w']} is {cnt} times in ensemble.log (level {case['level']}, {case['mode']}), "
                f"{len(found)} times as logged\n{text[-2500:]}",
                "number of copies of a message in the log" if cnt != int(on) else "message altered",
            )
            if on:
                require(found[0][1] == t["w"], lambda: f"message of worker {t['w']} is labelled [{found[0][1]}] ({case['mode']})", "label of a message")
                if kind == "exc":
                    require(f"ValueError: inner {key}" in text, lambda: f"exception information of {msg!r} is not in the log", "exception information lost")
                by.setdefault((t["w"], t["t0"]), []).append(found[0][0])
    for pos in by.values():
        require(pos == sorted(pos), "messages of one worker are out of order", "order of messages")
    calls = {}
    for t in sorted(truth, key=lambda t: t["t0"]):
        p = by.get((t["w"], t["t0"]))
        if p and not (case["persis"] and t["role"] == "gen"):
            calls.setdefault(t["w"], []).extend(p)
    for w, pos in calls.items():
        require(pos == sorted(pos), f"messages of worker {w} are out of order", "order of messages")
    return n


def strategy(modes):
    from hypothesis import strategies as st

    entry = st.fixed_dictionaries(
        {
            "form": st.sampled_from(["a", "pi", "st", "all", "st"]),
            "status": st.sampled_from([30, 31, 32, 33, 34, 35, 77, "my own words", "x", 0]),
            "ms": st.sampled_from([0, 0, 2, 7]),
            "logs": st.lists(st.tuples(st.sampled_from(list(LEVELS)), st.sampled_from(KINDS), st.integers(0, 2)).map(list), max_size=5),
        }
    )

    def fin(c):
        if c["persis"] and c["nw"] == 1:
            c["gom"] = True
        c["psim"] = bool(c["psim"] and c["persis"])
        if c["psim"]:
            c["exc"] = None
        if c["mode"] == "mpi":
            c["exc"] = None
        if c["mode"] == "tcp":
            c["rsets"] = False  # no resource management with TCP
        return c

    return st.fixed_dictionaries(
        {
            "mode": st.sampled_from(modes),
            "nw": st.sampled_from([1, 2, 3]),
            "level": st.sampled_from(["INFO", "INFO", "DEBUG", "WARNING", "ERROR", "MANAGER_WARNING", "VDEBUG"]),
            "persis": st.booleans(),
            "psim": st.sampled_from([False, False, True]),
            "gom": st.sampled_from([False, False, True]),
            "off": st.sampled_from([False] * 9 + [True]),
            "multi": st.booleans(),
            "prio": st.integers(0, 255),
            "rsets": st.sampled_from([False, False, False, True]),
            "batch": st.integers(1, 6),
            "n": st.integers(1, 14),
            "exc": st.sampled_from([None, None, None, None, 0, 1, 4]),
            "sim": st.lists(entry, min_size=1, max_size=4),
            "gen": st.lists(entry, min_size=1, max_size=3),
        }
    ).map(fin)


TARGETS = [
    Target("local", lambda: strategy(["local", "local", "threads"]), run, 240, 3000, shrink_s=40),
    Target("tcp", lambda: strategy(["tcp"]), run, 24, 500, shrink_s=40),
    Target("mpi", lambda: strategy(["mpi"]), run, 40, 500, max_shards=2, shrink_s=40),
]
