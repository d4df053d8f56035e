"""C18: each calculation gets its own directory with the right inputs, and nothing is lost."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import ens, work
from vlib.core import Target, Violation, require

TECHNIQUE = "property-based testing with failure injection: generated directory options, input trees and runs (several runs in one place, user functions that fail), judged from the file trees and the current directories the user functions see against a model of where each call belongs"
RULE = (
    "Whole runs by 1-4 workers, each with a current directory of its own as a process has, with arbitrary combinations of "
    "the directory options (simulation / generator / worker directories, input directory, files and directories to copy and "
    "to link given as strings or paths, relative or absolute, overlapping; id width; ensemble directory: default, relative, "
    "nested, absolute, with a suffix; workflow directory; copy-back; reuse), orders of one or several points, several or "
    "persistent generators, user functions that fail, and one or two runs in the same place or next to foreign files. User "
    "functions note their directory and its content when they start, write files (also named like calculation "
    "directories), change and delete copied inputs. Judged: place and name of each directory, no other call ever in it, "
    "inputs all there with the right content, directory restored before each result is sent, sources and older results "
    "unchanged, refusal before any call where results would be overwritten, and every file written found again at the end "
    "and in the copy. Non-trivial: calculation directories were made for at least two calls."
)
ASSUMPTIONS = [
    "input files of one kind of calculation have different base names",
    "workers are threads whose current directory is switched with them, in place of processes with a directory each",
    "where several calls share a directory by request, only presence of the inputs is judged, not that one call's changes survive the next call's copying",
]

FILES = ["a.txt", "b.dat", "noext", "c.tar.gz", "sim1.inp", "with space"]
DIRS = ["tree", "gen2.d"]
INP = ["i1.txt", "i2", "sub"]  # inside the input directories


def strategy():
    side = st.fixed_dictionaries(
        {
            "make": st.booleans(),
            "input_dir": st.sampled_from([None, None, "str", "path", "abs"]),
            "copy": st.lists(st.sampled_from(FILES + DIRS), max_size=3, unique=True),
            "link": st.lists(st.sampled_from(FILES + DIRS), max_size=3, unique=True),
            "link_inp": st.sampled_from([False, False, False, True]),
            "form": st.sampled_from(["str", "path", "abs", "mixed"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "nw": st.integers(1, 4),
            "gom": st.sampled_from([False, False, False, True]),
            "sim": side,
            "gen": side,
            "worker_dirs": st.booleans(),
            "ens": st.sampled_from(["default", "default", "rel", "nested", "abs", "suffix", "dotted"]),
            "wf": st.sampled_from([None, None, None, "new", "old"]),
            "width": st.sampled_from([None, None, 1, 2, 7]),
            "back": st.booleans(),
            "reuse": st.booleans(),
            "existing": st.sampled_from([None, None, None, None, "ens", "back"]),
            "second": st.booleans(),
            "reuse2": st.booleans(),
            "swap": st.sampled_from([False, False, True]),
            "delays": work.delays,
            "dec": st.lists(st.integers(0, 30), min_size=2, max_size=24),
            "gens": st.lists(work.batch(), min_size=1, max_size=5).map(work.pos_first),
            "sims": st.lists(
                st.fixed_dictionaries(
                    {
                        "exc": st.sampled_from([False] * 12 + [True]),
                        "files": st.lists(st.sampled_from(["log", "sim3.out", "gen1", "d/x", "workerish"]), max_size=3, unique=True),
                        "mod": st.sampled_from([None, None, "append", "delete"]),
                        "stay": st.sampled_from([False, False, True]),
                    }
                ),
                min_size=1,
                max_size=5,
            ),
            "gexc": st.sampled_from([None] * 9 + [1, 2]),
            "persis": st.booleans(),
            "popts": st.fixed_dictionaries({"ret": st.sampled_from(["none", "H"]), "own": st.booleans()}),
            "scramble": st.booleans(),
            "sim_max": st.one_of(st.none(), st.integers(1, 14)),
            "H0": st.sampled_from([None]),
        }
    )


def tree(d, follow=False):
    """{relative path: content} of everything below d."""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = os.path.join(root, f)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir",)
            else:
                with open(p, "rb") as fh:
                    out[r] = ("file", fh.read())
    return out


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def make_inputs(top):
    for s in ("sim", "gen"):
        src = os.path.join(top, "src_" + s)
        for f in FILES:
            put(os.path.join(src, f), f"{s} {f}")
        put(os.path.join(src, "tree", "t1"), f"{s} t1")
        put(os.path.join(src, "tree", "deep", "t2"), f"{s} t2")
        put(os.path.join(src, "gen2.d", "u"), f"{s} u")
        inp = os.path.join(top, "inp_" + s)
        put(os.path.join(inp, "i1.txt"), f"{s} i1")
        put(os.path.join(inp, "i2"), f"{s} i2")
        put(os.path.join(inp, "sub", "i3"), f"{s} i3")


def spell(top, rel, form, i):
    if form == "mixed":
        form = ("str", "path", "abs")[i % 3]
    if form == "abs":
        return os.path.join(top, rel)
    return Path(rel) if form == "path" else rel


def links_of(c, s):
    return [f"src_{s}/{f}" for f in c["link"]] + ([f"inp_{s}/i2"] if c["link_inp"] and c["input_dir"] else [])


def dir_specs(case, top, out):
    sp = {}
    for s in ("sim", "gen"):
        c = case[s]
        if c["make"]:
            sp[s + "_dirs_make"] = True
        if c["input_dir"]:
            sp[s + "_input_dir"] = spell(top, "inp_" + s, c["input_dir"], 0)
        if c["copy"]:
            sp[s + "_dir_copy_files"] = [spell(top, f"src_{s}/{f}", c["form"], i) for i, f in enumerate(c["copy"])]
        link = links_of(c, s)
        if link:
            sp[s + "_dir_symlink_files"] = [spell(top, f, c["form"], i + 1) for i, f in enumerate(link)]
    if case["worker_dirs"]:
        sp["use_worker_dirs"] = True
    if case["ens"] != "default":
        sp["ensemble_dir_path"] = {
            "rel": "out",
            "nested": Path("scratch/deeper/out"),
            "abs": os.path.join(out, "node_local"),
            "suffix": "out.run1",
            "dotted": os.path.join(out, "ens.v1.2"),
        }[case["ens"]]
    if case["wf"]:
        sp["workflow_dir_path"] = "wf"
    if case["width"]:
        sp["calc_dir_id_width"] = case["width"]
    if case["back"]:
        sp["ensemble_copy_back"] = True
    return sp


def expected_inputs(case, top, s):
    """{relative path: entry} of a fresh directory of kind s."""
    c = case[s]
    exp = {}

    def copy(src, name):
        if os.path.isdir(src):
            exp[name] = ("dir",)
            for r, e in tree(src).items():
                exp[os.path.join(name, r)] = e
        else:
            exp[name] = ("file", open(src, "rb").read())

    for f in c["copy"]:
        copy(os.path.join(top, "src_" + s, f), f)
    if c["input_dir"]:
        for f in os.listdir(os.path.join(top, "inp_" + s)):
            copy(os.path.join(top, "inp_" + s, f), f)
    links = links_of(c, s)
    for f in links:
        if os.path.basename(f) not in exp:
            exp[os.path.basename(f)] = ("link", os.path.join(top, f))
    return exp


def uses(case, s):
    c = case[s]
    return bool(c["make"] or c["input_dir"] or c["copy"] or c["link"] or case["worker_dirs"] or case["back"])


def makes(case, s):
    return bool(case[s]["make"] or case[s]["input_dir"])


def ens_path(case, launch, out):
    e = {"default": "ensemble", "rel": "out", "nested": "scratch/deeper/out", "suffix": "out.run1"}.get(case["ens"])
    if e is None:
        return os.path.join(out, {"abs": "node_local", "dotted": "ens.v1.2"}[case["ens"]])
    return os.path.join(launch, "wf", e) if case["wf"] else os.path.join(launch, e)


class Log:
    def __init__(self):
        self.calls = []
        self.written = {}  # absolute path -> content last written


def act(case, log, role, inner, nrun):
    def f(run, k, H, persis_info, specs, libE_info):
        cwd = os.getcwd()
        c = {"role": role, "w": int(libE_info["workerID"]), "rows": [int(r) for r in libE_info["H_rows"]], "cwd": cwd,
             "tree": tree(cwd), "k": k, "n": len(log.calls), "run": nrun}
        log.calls.append(c)
        s = case["sims"][k % len(case["sims"])]
        own = makes(case, role)

        def note(rel, text, app=False):
            p = os.path.join(cwd, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "a" if app else "w") as fh:
                fh.write(text)
            with open(p) as fh:
                log.written[p] = fh.read()

        inputs = {e for r in ("sim", "gen") for e in expected_inputs(case, log.top, r)} | {"i2"}
        note(f"by_{nrun}_{role}_{c['n']}.txt", f"{cwd} {c['n']}")
        for name in s["files"]:
            if not own and uses(case, role):
                name = name + f".{c['n']}" if name != "gen1" else f"gen{c['n']}"
                if name == f"gen{c['n']}" and case["gen"]["make"]:
                    continue  # could be the name of a directory of the run's own
            elif not own:
                name = f"{name}.{nrun}.{c['n']}"
            if name not in inputs:
                note(name, f"{name} {c['n']}")
        if own and s["mod"]:
            for r, e in sorted(c["tree"].items()):
                p = os.path.join(cwd, r)
                if e[0] == "file" and not any(os.path.islink(os.path.join(cwd, *r.split(os.sep)[: i + 1])) for i in range(r.count(os.sep) + 1)):
                    log.written.pop(p, None)
                    if s["mod"] == "append":
                        note(r, "more", app=True)
                    else:
                        os.remove(p)
        if s["stay"] and uses(case, role):
            os.chdir(log.top)  # a user function may leave the directory
        try:
            if role == "sim" and s["exc"]:
                raise work.UserError("sim failure")
            if role == "gen" and case["gexc"] == k + 1:
                raise work.UserError("gen failure")
            res = inner(run, k, H, persis_info, specs, libE_info)
        finally:
            c["cwd_end"] = os.getcwd()
        return res

    return f


def one_run(case, log, launch, out, reuse, nrun):
    run = work.init_run(case)
    run.eng.own_cwd = True
    gen = work.make_persis_gen(case["gens"], case["popts"]) if case["persis"] else work.make_gen(case["gens"])
    script = [{}]
    sim_specs, gen_specs = work.base_specs(run, act(case, log, "sim", work.make_sim(script), nrun), act(case, log, "gen", gen, nrun))
    specs = {"gen_on_manager": case["gom"], **dir_specs(case, log.top, out)}
    if reuse:
        specs["reuse_output_dir"] = True
    exit_criteria = {"sim_max": case["sim_max"]} if case["sim_max"] else {"gen_max": 10**6}
    alloc_specs = {"alloc_f": run.wrap_alloc(work.fuzz_alloc(run, case)), "out": []}
    run.go(case["nw"], sim_specs, gen_specs, exit_criteria, {}, alloc_specs, specs)
    return run


def rows_of(name, kind):
    """Rows a directory name stands for, or None."""
    if not name.startswith(kind):
        return None
    rows = []
    try:
        for part in name[len(kind):].split("_"):
            a, _, b = part.partition("-")
            rows += list(range(int(a), int(b) + 1)) if b else [int(a)]
    except ValueError:
        return None
    return rows


def judge_run(case, rec, log, run, calls, launch, out, fresh):
    E = ens_path(case, launch, out)
    base = os.path.join(launch, "wf") if case["wf"] else launch
    seen = {}
    for c in calls:
        s, w, cwd = c["role"], c["w"], c["cwd"]
        what = f"{s} call for rows {c['rows']} on worker {w} runs in {cwd}"
        if not uses(case, s):
            require(cwd == base, f"{what} without directory options, instead of in {base}", "call without directory options in another directory")
            continue
        home = os.path.join(E, f"worker{w}") if case["worker_dirs"] else E
        own = makes(case, s)
        if case["worker_dirs"] and not case["sim"]["make"] and not case["gen"]["make"] and not own:
            own = False
        if not own:
            require(cwd == home, f"{what}, not in {home}", "shared directory in the wrong place")
        else:
            require(os.path.dirname(cwd) == home, f"{what}, which is not directly in {home}", "calculation directory in the wrong place")
            require(cwd not in seen, lambda: f"{what}; so did the {seen[cwd]}", f"two {s} calls in the same directory")
            seen[cwd] = f"call for rows {c['rows']} on worker {w}"
            name = os.path.basename(cwd)
            width = case["width"] or 4
            if s == "sim":
                require(rows_of(name, "sim") == c["rows"], f"{what}: the name does not say so", "directory name does not match the points")
                if len(c["rows"]) == 1:
                    require(name == f"sim{c['rows'][0]:0{width}d}", f"{what}: width should be {width}", "directory name of the wrong width")
            else:
                require(name.startswith("gen") and name[3:].isdigit() and len(name) >= 3 + width, f"{what}: unexpected name", "generator directory name")
            rec.label("own directory " + s)
        exp = expected_inputs(case, log.top, s)
        for r, e in exp.items():
            got = c["tree"].get(r)
            if not own and any(r == x or r.startswith(x + os.sep) for x in both(case)):
                continue  # the other kind of calculation shares the directory and has a file of that name
            require(got is not None, f"{what}: input {r} is missing", "an input is missing")
            require(got[0] == e[0] or not own, f"{what}: input {r} is {got[0]} instead of {e[0]}", "input of the wrong kind")
            if own:
                require(got == e, f"{what}: input {r} is {got}, should be {e}", "input with the wrong content")
        if own and fresh:
            extra = set(c["tree"]) - set(exp)
            require(not extra, f"{what}: it starts with {sorted(extra)[:5]} in it", "directory not fresh")
    # back in the directory of before
    for e in run.of("wput"):
        s = e.d["serial"]
        if s is None:
            continue
        fin = [x for x in run.ev if x.kind in ("ret", "exc") and x.d["serial"] == abs(s)]
        if fin:
            require(e.d["cwd"] == base, f"worker {e.d['w']} is in {e.d['cwd']} after a call, not back in {base}", "worker not back in its directory")


def both(case):
    return set(expected_names(case, "sim")) & set(expected_names(case, "gen"))


def expected_names(case, s):
    c = case[s]
    return c["copy"] + c["link"] + (["i1.txt", "i2", "sub"] if c["input_dir"] else [])


def check_kept(case, log, launch, out, upto, old):
    """Every file written is where it was written; older files too."""
    for p, text in log.written.items():
        require(os.path.isfile(p), f"{p}, written by a user function, is gone", "a produced file is gone")
        with open(p) as f:
            got = f.read()
        require(got == text, f"{p} holds {got!r} instead of {text!r}", "a produced file was overwritten")


def check_back(case, log, launch, out, ncalls):
    E = ens_path(case, launch, out)
    base = os.path.join(launch, "wf") if case["wf"] else launch
    dest = [d for d in os.listdir(base) if d.endswith("_back")]
    mine = {p: t for p, t in log.written.items() if p.startswith(E + os.sep)}
    if not mine:
        return 0
    require(dest, f"no copy of {E} in {base}", "no copy back")
    back = os.path.join(base, dest[0])
    for p, t in mine.items():
        q = os.path.join(back, os.path.relpath(p, E))
        require(os.path.isfile(q), f"{os.path.relpath(p, E)} was produced but is not in the copy {dest[0]}", "a produced file is not copied back")
        with open(q) as f:
            got = f.read()
        require(got == t, f"{os.path.relpath(p, E)} in the copy holds {got!r} instead of {t!r}", "a file was copied back with the wrong content")
    return len(mine)


def runs(case, rec):
    cwd0 = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix="c18_"))
    try:
        launch = os.path.join(d, "launch")
        out = os.path.join(d, "scratch")
        os.makedirs(launch)
        os.makedirs(out)
        make_inputs(launch)
        os.chdir(launch)
        log = Log()
        log.top = launch
        src0 = {s: tree(os.path.join(launch, s)) for s in ("src_sim", "src_gen", "inp_sim", "inp_gen")}
        E = ens_path(case, launch, out)
        base = os.path.join(launch, "wf") if case["wf"] else launch
        if case["wf"] == "old":
            put(os.path.join(base, "notes"), "old")
        existing = case["existing"]
        if existing == "ens":
            put(os.path.join(E, "sim0000", "result"), "precious")
            put(os.path.join(E, "keep"), "precious")
        elif existing == "back":
            stem = Path(E).stem
            put(os.path.join(base, stem + "_back", "sim0000", "result"), "precious")
        nruns = 2 if case["second"] else 1
        dirs = 0
        for i in range(nruns):
            reuse = (case["reuse2"] if i else case["reuse"]) or False
            if i and case["swap"]:  # what was copied is linked now, and the reverse
                case = dict(case)
                for s in ("sim", "gen"):
                    case[s] = dict(case[s], copy=case[s]["link"], link=case[s]["copy"])
            before = {"l": tree(launch), "o": tree(out)}
            n0 = len(log.calls)
            in_the_way = os.path.isdir(E) and bool(os.listdir(E))
            back_there = case["back"] and any(x.endswith("_back") for x in (os.listdir(base) if os.path.isdir(base) else []))
            will_use = uses(case, "sim") or uses(case, "gen")
            try:
                run = one_run(case, log, launch, out, reuse, i)
            finally:
                moved = os.getcwd()
                os.chdir(launch)
            if run.hang:
                raise Violation(f"the run hangs: {run.hang}; existing: {existing}, run {i + 1}\n{run.tail(6)}", "hang: " + run.hang)
            require(moved == launch, f"libE() returns in {moved}, called in {launch}", "the caller's directory changed")
            calls = log.calls[n0:]
            for s, t in src0.items():
                now = tree(os.path.join(launch, s))
                diff = [r for r in set(t) | set(now) if t.get(r) != now.get(r)]
                require(not diff, f"input files changed: {s}/{diff[:4]}", "an input file was changed")
            if not reuse and (in_the_way or back_there):
                if will_use:
                    require(run.exc is not None and not calls,
                            f"results exist in {E} or its copy, reuse is not allowed, but the run made {len(calls)} calls ({run.exc!r})",
                            "run goes on where results exist")
                if run.exc is not None and not calls:
                    now = {"l": tree(launch), "o": tree(out)}
                    for a in before:
                        for r, e in before[a].items():
                            require(now[a].get(r) == e, f"refused run changed {r}", "a refused run changed files")
                    require(not run.leftover, f"workers {run.leftover} are left behind by the refused run", "workers left behind")
                    rec.label("refused")
                    continue
                require(not will_use or run.exc is None, f"{run.exc!r}", "unexpected")
            failed = [e for e in run.of("exc")]
            expected_exc = bool(failed)
            if run.exc is not None and not expected_exc:
                raise Violation(f"the run fails with {chain(run.exc)}", "the run fails: " + kind_of(run.exc))
            if run.exc is not None:
                rec.label("failure")
            require(not run.leftover, f"workers {run.leftover} are left behind", "workers left behind")
            judge_run(case, rec, log, run, calls, launch, out, fresh=(i == 0 and existing != "ens") or (not os.path.isdir(E)))
            if not reuse or i == 0:
                check_kept(case, log, launch, out, i, None)
            else:  # only what this run wrote must be there
                log.written = {p: t for p, t in log.written.items() if os.path.basename(p).startswith(f"by_{i}_")}
                check_kept(case, log, launch, out, i, None)
            if case["back"]:
                nb = check_back(case, log, launch, out, len(calls))
                if nb:
                    rec.label("copied back")
            n = sum(1 for c in calls if makes(case, c["role"]))
            dirs += n
            rec.label(f"{'two runs' if i else 'one run'}")
        rec.nontrivial(dirs >= 2, interest=dirs)
    finally:
        os.chdir(cwd0)
        shutil.rmtree(d, ignore_errors=True)


def chain(e):
    out = []
    while e is not None:
        out.append(repr(e)[-600:])
        e = e.__cause__ or e.__context__
    return " <- ".join(out)


def kind_of(e):
    t = chain(e)
    for k in ("FileExistsError", "FileNotFoundError", "IsADirectoryError", "NotADirectoryError", "SameFileError", "PermissionError", "OSError", "AssertionError"):
        if k in t:
            return k
    return type(e).__name__


def shard_setup():
    ens.quiet_logs()


TARGETS = [
    Target("runs", strategy, runs, 1500, 20000),
]
