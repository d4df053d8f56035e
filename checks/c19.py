"""C19: saved histories are complete and loadable at every moment they exist."""
import copy
import os
import pickle
import re
import resource
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, work
from vlib.core import Target, Violation, require
from vlib.judge import clean_run

TECHNIQUE = "property-based testing with fault injection: generated runs that save their history, with a crash considered at every file operation and write failures injected, judged against the histories seen by the allocation function"
RULE = (
    "Whole runs (any allocation policy, with and without H0) save after every k simulations and / or points, at the end "
    "only, or not at all, with several file-name prefixes (also with glob characters), with dates and in a workflow "
    "directory, among files of earlier runs and of other origin with similar names. At every call of the allocation "
    "function the only file of the run of each kind must carry the largest multiple of k reached and hold the history of "
    "the moment it was reached; at the end it must hold the history returned. At every file operation (open for writing, "
    "rename, removal: seen with an audit hook) the worst state a crash could leave is considered: files under their final "
    "names must load, and one must stay once one existed. Failing operations (no permission; file-size limit in the "
    "middle of a file) must leave the older file. save_libE_output is read back. Non-trivial: at least two saves "
    "replaced each other, or a failure was injected into a save."
)
ASSUMPTIONS = [
    "a rename within a directory is taken to be atomic; power failures that lose written data are not considered",
    "files of earlier runs with a number in the same place may be removed by the run (they are the names it uses)",
]

PREFIXES = ["libE_history", "libE_history", "my run", "run[1]", "a*b", "h?", "after_sim_1"]


class Monitor:
    """Watches the file operations of one run in one directory."""

    active = None
    installed = False

    def __init__(self, d, prefix, dated, fault):
        self.d = os.path.realpath(d)
        date = r"[^/]+_" if dated else ""
        self.pat = {
            kind: re.compile(re.escape(prefix) + "_" + date + f"after_{kind}_" + r"([0-9]+)\.npy") for kind in ("sim", "gen")
        }
        self.fault = fault
        self.nops = 0
        self.opens = 0
        self.faulted = None
        self.had = {"sim": False, "gen": False}
        self.problems = []
        self.busy = False
        self.stale = {}
        self.limit = None

    def kind(self, path):
        path = os.path.realpath(os.path.dirname(path)) + "/" + os.path.basename(path)
        if os.path.dirname(path) != self.d:
            return None, None
        name = os.path.basename(path)
        for k, p in self.pat.items():
            m = p.fullmatch(name)
            if m:
                return k, int(m.group(1))
        return None, None

    def files(self, kind):
        """Files of this kind that are not (still) files of an earlier run: {count: path}."""
        out = {}
        for name in os.listdir(self.d):
            m = self.pat[kind].fullmatch(name)
            if m:
                path = os.path.join(self.d, name)
                if name in self.stale and self.stale[name] == read(path):
                    continue
                out[int(m.group(1))] = path
        return out

    def problem(self, text):
        self.problems.append(text)

    def look(self, without=None):
        """State of the directory now (as a crash would leave it), optionally without one file."""
        for k in self.had:
            good = 0
            for n, path in self.files(k).items():
                if path == without:
                    continue
                try:
                    np.load(path, allow_pickle=False)
                    good += 1
                except Exception as e:
                    self.problem(f"the file {os.path.basename(path)} exists but does not load: {type(e).__name__} {e}"[:200])
            if good:
                self.had[k] = True
            elif self.had[k]:
                self.problem(f"a crash now leaves no saved history (after_{k}), though one had been saved")

    def event(self, name, args):
        if name == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes, os.PathLike)):
                return
            path = os.fspath(path)
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            write = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                not isinstance(mode, str) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)
            )
            if not write or not self.inside(path):
                return
            self.nops += 1
            self.opens += 1
            self.look()
            k, n = self.kind(path)
            if k:
                self.problem(f"{os.path.basename(path)} is written in place: it exists incomplete for a while")
            if self.fault and self.fault["at"] == self.opens:
                if self.fault["kind"] == "open":
                    self.faulted = "open"
                    raise OSError(13, "injected: no permission", path)
                if self.fault["kind"] == "write":
                    self.faulted = "write"
                    self.limit = resource.getrlimit(resource.RLIMIT_FSIZE)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (self.fault["bytes"], self.limit[1]))
        elif name in ("os.remove", "os.truncate"):
            path = os.fspath(args[0]) if isinstance(args[0], (str, os.PathLike)) else None
            if path and self.inside(path):
                self.nops += 1
                self.look(without=os.path.join(self.d, os.path.basename(path)))
        elif name == "os.rename":
            src, dst = os.fspath(args[0]), os.fspath(args[1])
            if not self.inside(src) and not self.inside(dst):
                return
            self.nops += 1
            self.look()
            if self.fault and self.fault["kind"] == "rename" and self.fault["at"] == self.opens:
                self.faulted = "rename"
                raise OSError(13, "injected: no permission", dst)
            if self.kind(dst)[0]:
                try:
                    np.load(src, allow_pickle=False)
                except Exception as e:
                    self.problem(f"an incomplete file gets the name {os.path.basename(dst)}: {type(e).__name__}")
            if self.kind(src)[0]:
                self.look(without=os.path.join(self.d, os.path.basename(src)))

    def inside(self, path):
        return os.path.realpath(os.path.dirname(os.path.abspath(path))) == self.d

    def release(self):
        if self.limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, self.limit)
            self.limit = None


def hook(name, args):
    m = Monitor.active
    if m is None or m.busy or name not in ("open", "os.remove", "os.rename", "os.truncate"):
        return
    m.busy = True
    try:
        m.event(name, args)
    finally:
        m.busy = False


def shard_setup():
    ens.quiet_logs()
    if not Monitor.installed:
        sys.addaudithook(hook)
        Monitor.installed = True


def read(path):
    with open(path, "rb") as f:
        return f.read()


def same(a, b):
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    for n in a.dtype.names:
        if np.issubdtype(a[n].dtype, np.floating):
            if not np.array_equal(a[n], b[n], equal_nan=True):
                return False
        elif not np.array_equal(a[n], b[n]):
            return False
    return True


def decoys(d, case):
    """Other people's files with similar names, and files of earlier runs. Returns ({name: bytes} to leave alone, stale)."""
    p = case["prefix"]
    keep, stale = {}, {}
    fake = np.zeros(2, dtype=[("old", int)])
    names = []
    if case["decoys"] & 1:
        names += [f"{p}_after_sim_mine.npy", f"{p}_after_gen_mine.npy", f"{p}_after_sim_10_b.npy", f"{p}_after_gen_.npy"]
    if case["decoys"] & 2:
        names += [f"{p}_2020-01-01_00:00:00_after_sim_7.npy", f"{p}_2020-01-01_00:00:00_after_gen_7.npy", f"{p}.npy"]
    if case["decoys"] & 4:
        names += [f"other_{p}_after_sim_4.npy", f"{p}_after_sim_5.npy.bak", f"{p}_after_gen_5.npz", f"{p}x_after_sim_5.npy"]
    if case["decoys"] & 8:
        names += ["run1_after_sim_4.npy", "axxb_after_sim_3.npy", "hi_after_gen_3.npy", "run1_after_gen_4.npy", "hi_after_sim_2.npy"]
    if not case["ksim"] and case["kgen"]:
        names += [f"{p}_after_sim_4.npy"]
    if case["ksim"] and not case["kgen"]:
        names += [f"{p}_after_gen_6.npy"]
    if case["dated"]:
        names += [f"{p}_after_sim_2.npy", f"{p}_after_gen_2.npy"]
    for n in names:
        np.save(open(os.path.join(d, n), "wb"), fake)
        keep[n] = read(os.path.join(d, n))
    if not case["dated"]:
        for kind, k in (("sim", case["ksim"]), ("gen", case["kgen"])):
            for m in case["stale"] if k else []:
                n = f"{p}_after_{kind}_{k * m}.npy"
                np.save(os.path.join(d, n), fake)
                stale[n] = read(os.path.join(d, n))
    return keep, stale


def run_case(case, rec):
    base = tempfile.mkdtemp(prefix="verif_c19_")
    old = os.getcwd()
    mon = None
    try:
        os.chdir(base)
        d = base
        specs = {"H_file_prefix": case["prefix"], "save_H_with_date": case["dated"], "save_H_on_completion": case["final_H"]}
        if case["prefix"] == "libE_history" and case["plain"]:
            del specs["H_file_prefix"]
        if case["ksim"]:
            specs["save_every_k_sims"] = case["ksim"]
        if case["kgen"]:
            specs["save_every_k_gens"] = case["kgen"]
        if case["wf"]:
            d = os.path.join(base, "flow")
            os.mkdir(d)
            specs["workflow_dir_path"] = d if case["wf"] == 1 else "flow"
            specs["use_workflow_dir"] = True
        keep, stale = decoys(d, case)
        mon = Monitor(d, case["prefix"], case["dated"], case["fault"])
        mon.stale = {**stale, **keep}
        before = set(os.listdir(base)), set(os.listdir(d))
        ks = {"sim": case["ksim"], "gen": case["kgen"]}
        seen = {}
        saves = {"sim": 0, "gen": 0}

        def on_alloc(run, e):
            mon.busy = True
            try:
                H = e.d["H"]
                for kind, k in ks.items():
                    n = int(np.sum(H["sim_ended"])) if kind == "sim" else len(H)
                    c = k * (n // k) if k else 0
                    f = mon.files(kind)
                    if not c:
                        if f:
                            mon.problem(f"after_{kind}: {sorted(f)} saved, though {n} done and k is {k}")
                        continue
                    if sorted(f) != [c]:
                        mon.problem(f"after_{kind}: {n} done, k is {k}: files of the run have counts {sorted(f)} and not [{c}]")
                        continue
                    got = np.load(f[c], allow_pickle=False)
                    if seen.get(kind, (0,))[0] != c:
                        saves[kind] += 1
                        if not same(got, H):
                            mon.problem(f"after_{kind}_{c} differs from the history when {n} were done")
                        seen[kind] = (c, got)
                    elif not same(got, seen[kind][1]):
                        mon.problem(f"after_{kind}_{c} changed with {n} done")
            finally:
                mon.busy = False
            if mon.problems:
                raise Violation(mon.problems[0], mon.problems[0])

        def attach(run, alloc):
            run.on_alloc.append(on_alloc)
            return alloc

        Monitor.active = mon
        try:
            if case["work"] == "fuzz":
                run = work.run_fuzz(case["case"], specs, alloc_wrap=attach)
            else:
                run = work.run_supplied(case["case"], specs, alloc_wrap=attach)
        finally:
            Monitor.active = None
            mon.release()
        mon.look()
        if mon.problems:
            raise Violation(
                "; ".join(dict.fromkeys(mon.problems[:4])) + "\n" + run.tail(8), re.sub(r"[0-9]+", "N", mon.problems[0])[:120]
            )
        if mon.faulted:
            # the run may end with an error; the older file was looked at by mon.look()
            run.require_ended()
            for kind, (c, H) in seen.items():
                f = mon.files(kind)
                require(c in f or any(n > c for n in f), lambda: f"after an error in a save, after_{kind}: {sorted(f)}", "lost")
                for n, path in f.items():
                    got = np.load(path, allow_pickle=False)
                    require(n != c or len(got) >= len(H), "the older file changed in a failed save")
            final = {}
        else:
            clean_run(run)
            final = {}
            if case["kgen"]:
                final["gen"] = len(run.H)
            if case["ksim"] or (case["final_H"] and not case["kgen"]):
                final["sim"] = int(np.sum(run.H["sim_ended"]))
            for kind in ("sim", "gen"):
                f = mon.files(kind)
                want = [final[kind]] if kind in final else []
                require(
                    sorted(f) == want, lambda: f"after_{kind} files at the end: {sorted(f)} and not {want}", "files at the end"
                )
                if want:
                    got = np.load(f[want[0]], allow_pickle=False)
                    require(
                        same(got, np.asarray(run.H)),
                        lambda: f"the final file (after_{kind}) differs from the history returned\n{run.tail(8)}",
                        "the final file differs from the history returned",
                    )
        for n, b in keep.items():
            path = os.path.join(d, n)
            require(os.path.isfile(path) and read(path) == b, lambda: f"the file {n} of other origin was removed or changed", "decoy")
        after = set(os.listdir(base)), set(os.listdir(d))
        for i, dd in enumerate((base, d)):
            extra = {n for n in after[i] - before[i] if not (dd == d and mon.kind(os.path.join(d, n))[0])}
            extra = {n for n in extra if not n.endswith((".log", ".txt"))}
            require(not extra, lambda: f"files left besides the saved history: {sorted(extra)}", "files left")
        for kind in saves:
            if ks[kind]:
                rec.label(f"{kind}:{min(saves[kind], 3)} saves")
        if mon.faulted:
            rec.label("fault:" + mon.faulted + (" with an older file" if any(mon.had.values()) else ""))
        if stale:
            rec.label("files of an earlier run")
        if case["dated"]:
            rec.label("dated")
        if case["wf"]:
            rec.label("workflow dir")
        if final and not any(ks.values()):
            rec.label("at the end only")
        rec.nontrivial(max(saves.values()) >= 2 or bool(mon.faulted), interest=sum(saves.values()))
    finally:
        Monitor.active = None
        if mon:
            mon.release()
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def run_strategy(draw):
    ksim, kgen = draw(
        st.sampled_from([(1, 0), (2, 0), (3, 0), (5, 0), (0, 1), (0, 2), (0, 4), (2, 3), (3, 5), (1, 1), (7, 0), (0, 9), (0, 0)])
    )
    w = draw(st.sampled_from(["supplied", "supplied", "fuzz"]))
    return {
        "ksim": ksim,
        "kgen": kgen,
        "final_H": draw(st.booleans()),
        "prefix": draw(st.sampled_from(PREFIXES)),
        "plain": draw(st.booleans()),
        "dated": draw(st.sampled_from([False, False, True])),
        "wf": draw(st.sampled_from([0, 0, 1, 2])),
        "decoys": draw(st.integers(0, 15)),
        "stale": draw(st.lists(st.integers(1, 5), max_size=2, unique=True)),
        "fault": draw(
            st.one_of(
                st.none(),
                st.none(),
                st.fixed_dictionaries(
                    {
                        "kind": st.sampled_from(["open", "write", "rename"]),
                        "at": st.integers(1, 5),
                        "bytes": st.sampled_from([0, 1, 100, 130, 400, 900]),
                    }
                ),
            )
        ),
        "work": w,
        "case": draw(
            work.fuzz_strategy() if w == "fuzz" else work.supplied_strategy(exits=("sim_max", "gen_max", "both"))
        ),
    }


# ------------------------------------------------------------------ save_libE_output


FIELD = st.sampled_from(["int", "float", "bool", "U5", "vec", "f4", "nan", "S3", "mat", "one"])


def out_strategy():
    name = st.sampled_from(["run", "calling_script", "test_6-hump", "my.script", "a b", "test_a_test_b", "x[1]"])
    return st.fixed_dictionaries(
        {
            "n": st.integers(0, 6),
            "fields": st.lists(FIELD, max_size=5, unique=True),
            "ended": st.integers(0, 63),
            "vals": st.lists(st.integers(-5, 9), min_size=1, max_size=6),
            "name": name,
            "ext": st.sampled_from(["", ".py", ".txt"]),
            "dir": st.sampled_from(["", "/nowhere/", "sub/"]),
            "dest": st.sampled_from([None, "abs", "rel"]),
            "nw": st.integers(0, 64),
            "attrs": st.booleans(),
            "pi": st.lists(st.sampled_from(["rng", "arr", "nest", "num", "txt", "none"]), max_size=4, unique=True),
            "twice": st.booleans(),
        }
    )


DT = {
    "int": int, "float": float, "bool": bool, "U5": "U5", "vec": (float, (3,)), "f4": "f4", "nan": float, "S3": "S3",
    "mat": (int, (2, 2)), "one": (float, (1,)),
}  # fmt: skip


def make_H(case):
    dt = [("sim_id", int), ("sim_ended", bool)] + [
        (f"f_{f}", *(DT[f] if isinstance(DT[f], tuple) else (DT[f],))) for f in case["fields"]
    ]
    H = np.zeros(case["n"], dtype=dt)
    H["sim_id"] = np.arange(case["n"])
    v = case["vals"]
    for i in range(case["n"]):
        H["sim_ended"][i] = bool(case["ended"] >> i & 1)
        for f in case["fields"]:
            x = v[i % len(v)]
            H[f"f_{f}"][i] = {"nan": np.nan if x % 2 else x, "U5": f"t{x}", "S3": f"{x}".encode(), "bool": x > 0}.get(f, x)
    return H


def save_output(case, rec):
    from libensemble.tools import save_libE_output

    base = tempfile.mkdtemp(prefix="verif_c19_")
    old = os.getcwd()
    try:
        os.chdir(base)
        os.mkdir("out")
        kw = {}
        if case["dest"]:
            kw["dest_path"] = os.path.join(base, "out") if case["dest"] == "abs" else "out"
        dest = os.path.join(base, "out") if case["dest"] else base
        H = make_H(case)
        src = {"rng": np.random.default_rng(3), "arr": np.arange(4.0), "nest": {1: {"a": [1, 2]}}, "num": 5, "txt": "t", "none": None}
        pi = {i: src[p] for i, p in enumerate(case["pi"])}
        basename = case["dir"] + case["name"] + (case["ext"] or (".py" if "." in case["name"] else ""))
        before, pib = H.copy(), copy.deepcopy(pi)
        ret = save_libE_output(H, pi, basename, case["nw"], append_attrs=case["attrs"], **kw)
        require(same(H, before), "save_libE_output changed the history")
        files = sorted(os.listdir(dest))
        files = [f for f in files if f != "out"]
        require(
            len(files) == 2 and {os.path.splitext(f)[1] for f in files} == {".npy", ".pickle"}, lambda: f"files: {files}", "files"
        )
        require(os.path.realpath(ret) == os.path.realpath(os.path.join(dest, [f for f in files if f.endswith(".npy")][0])),
                lambda: f"the path returned is {ret}, the files are {files}", "path returned")
        require(same(np.load(ret, allow_pickle=False), before), "the saved history differs")
        with open(os.path.join(dest, [f for f in files if f.endswith(".pickle")][0]), "rb") as f:
            got = pickle.load(f)
        require(list(got) == list(pib), "persis_info keys differ")
        for k in pib:
            a, b = got[k], pib[k]
            ok = a.bit_generator.state == b.bit_generator.state if isinstance(b, np.random.Generator) else (
                np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b
            )
            require(ok, lambda: f"persis_info[{k}] is {a} and not {b}", "persis_info differs")
        short = case["name"].split("test_", 1)[-1]
        for f in files:
            require(f.startswith(short), lambda: f"{f} does not start with {short}", "name")
            if case["attrs"]:
                want = f"length={len(H)}_evals={int(H['sim_ended'].sum())}_workers={case['nw']}"
                require(want in f, lambda: f"{f} lacks {want}", "name")
        if case["twice"] and case["n"]:
            H["sim_ended"] = ~H["sim_ended"]
            ret2 = save_libE_output(H, pi, basename, case["nw"], append_attrs=case["attrs"], **kw)
            require(same(np.load(ret2), H), "the second history saved differs")
        rec.label("attrs" if case["attrs"] else "plain")
        rec.nontrivial(case["n"] >= 2 and len(case["fields"]) >= 2)
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


TARGETS = [
    Target("runs", run_strategy, run_case, 1600, 30000),
    Target("save_output", out_strategy, save_output, 400, 6000),
]
