"""C06: any failure ends the run, is reported, and loses no completed work."""
import os
import pickle
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, work
from vlib.core import Target, Violation, require
from vlib.ens import GEN, SIM
from vlib.model import Ref

TECHNIQUE = "fault injection in property-based testing: whole runs on a deterministic schedule with generated failures of user and allocation functions"
RULE = (
    "The run workloads of C01 (supplied and generated allocation decisions, persistent and non-persistent functions, batches, "
    "H0, generator on the manager) with one to three injected faults: an exception (also SystemExit) or unusable return value "
    "(no array, too few rows, too many values for a field, wrong type, gap in the sim_ids) in a generated call of a simulator, "
    "a generator or a persistent one; an allocation function that raises, returns something malformed, or orders work for a "
    "busy or unknown worker, for unknown fields or rows, or without fields. Oracle: libE() raises, the error contains the "
    "text of the exception, all workers have left their loops, nothing hangs; the dumped history equals the reference model "
    "of everything generated and received until the dump, its name has the number of completed simulations, persis_info can "
    "be loaded, and nothing is dumped if that is off. Non-trivial: a fault took effect after at least one simulation result."
)
ASSUMPTIONS = [
    "rows that came with an unusable result may be partly written",
    "results still unread when the run is torn down need not be in the dump",
]


def shard_setup():
    ens.quiet_logs()


SIMF = ["exc", "exc", "exc", "exit", "str", "str3", "int", "dict", "short", "long", "type"]
GENF = ["exc", "exc", "exc", "exit", "str", "str3", "int", "list", "gap", "type", "none"]
ALLOCF = ["exc", "exc", "none", "two_bad", "four", "flag", "busy", "field", "rows", "nofields", "worker", "noinfo"]
fault = st.one_of(
    st.tuples(st.just("sim"), st.integers(0, 9), st.sampled_from(SIMF)),
    st.tuples(st.just("gen"), st.integers(0, 5), st.sampled_from(GENF)),
    st.tuples(st.just("alloc"), st.integers(0, 25), st.sampled_from(ALLOCF)),
)


@st.composite
def strategy(draw, kind):
    if kind == "supplied":
        case = draw(work.supplied_strategy(allocs=("gswf", "fast", "one", "opg", "opg", "opg"), exits=("sim_max", "gen_max", "both"), psim=True))
    else:
        case = draw(work.fuzz_strategy())
    faults = draw(st.lists(fault, min_size=1, max_size=3))
    if any(r == "gen" and k not in ("exc", "exit") for r, _, k in faults):
        # a generator that does not know that a batch of its own was lost must not refer to its points
        for b in [b for g in case["gens"] for b in (g if isinstance(g, list) else [g])]:
            b.update({k: v for k, v in {"ids": False, "upd": []}.items() if k in b})
        if "popts" in case and case["popts"]["ret"] == "upd":
            case["popts"]["ret"] = "H"
    if draw(st.sampled_from([False, False, True])):
        for x in case["sims"]:  # a simulator that neither looks at its input nor returns anything
            x["none"] = True
    return {"kind": kind, "case": case, "faults": faults, "save": draw(st.sampled_from([True, True, True, False]))}


class FaultRun:
    """Faults are counted over all outputs of a role (returns and sends)."""

    def __init__(self, faults):
        self.faults = {"sim": {}, "gen": {}, "alloc": {}}
        for role, k, kind in faults:
            self.faults[role][k] = kind
        self.n = {"sim": 0, "gen": 0, "alloc": 0}
        self.due = []  # alloc faults waiting for an opportunity
        self.hit = []

    def next(self, role):
        k = self.n[role]
        self.n[role] += 1
        return self.faults[role].get(k)

    def spoil(self, run, role, w, out, serial):
        """Called with what a user function is about to hand over."""
        kind = self.next(role)
        if kind is None:
            return out
        if role == "gen" and kind == "gap" and not isinstance(out, np.ndarray):
            return out
        if kind in ("short", "long", "type", "gap") and (not isinstance(out, np.ndarray) or not len(out)):
            kind = "int"
        if kind == "exc":
            text = f"fault {role} {self.n[role] - 1} in worker {w}"
            self.note(run, role, kind, w, text=text)
            raise ens.UserError(text)
        if kind == "exit":
            self.note(run, role, kind, w)
            raise SystemExit(3)
        new = {"str": "oops", "str3": "abc", "int": 5, "dict": {"f": 1.0}, "list": [1.0, 2.0, 3.0, 4.0], "none": None}.get(kind, 0)
        if kind == "short":
            new = out[:-1]
        elif kind == "long":
            new = np.zeros(len(out), dtype=[("f", float), ("fvec", float, (work.VEC + 2,))])
        elif kind == "type":
            f = "f" if role == "sim" else "tag"
            new = np.zeros(len(out), dtype=[(f, "U4")])
            new[f] = "bad"
        elif kind == "gap":
            new = np.zeros(2, dtype=[("x", float, (2,)), ("sim_id", int)])
            new["sim_id"] = [run.total + 50, run.total + 52]
        self.note(run, role, kind, w)
        return new

    def note(self, run, role, kind, w=None, text=None):
        e = run.log("fault", role=role, fkind=kind, w=w, text=text)
        self.hit.append(e)


def spoiled_sim(fr, base):
    def sim(run, k, H, persis_info, specs, libE_info):
        out = base(run, k, H, persis_info, specs, libE_info)
        arr = out[0] if isinstance(out, tuple) else out
        before = len(fr.hit)
        new = fr.spoil(run, "sim", libE_info["workerID"], arr, None)
        if len(fr.hit) > before:
            run.bad_next = True
            return new
        return out

    return sim


def spoiled_gen(fr, base):
    def gen(run, k, H, persis_info, specs, libE_info):
        out = base(run, k, H, persis_info, specs, libE_info)
        arr = out[0] if isinstance(out, tuple) else out
        before = len(fr.hit)
        new = fr.spoil(run, "gen", libE_info["workerID"], arr, None)
        return new if len(fr.hit) > before else out

    return gen


def spoiled_alloc(fr, run, base):
    def alloc(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info):
        kind = fr.next("alloc")
        if kind is not None:
            fr.due.append(kind)
        ids = [int(i) for i in W["worker_id"]]
        act = {i: int(a) for i, a in zip(ids, W["active"])}
        ps = {i: int(a) for i, a in zip(ids, W["persis_state"])}
        for kind in list(fr.due):
            good = not libE_info["sim_max_given"]
            idle = [i for i in ids if not act[i] and not ps[i] and i]
            busy = [i for i in ids if act[i]]
            rows = [int(i) for i in np.flatnonzero(~H["sim_started"])]
            order = lambda r, f: {"H_fields": f, "persis_info": {}, "tag": SIM, "libE_info": {"H_rows": np.array(r, dtype=int)}}
            Work = None
            if kind == "exc":
                fr.note(run, "alloc", kind, text="alloc fault text")
                raise ens.UserError("alloc fault text")
            elif kind == "none":
                out = None
            elif kind == "two_bad":
                out = ([], persis_info)
            elif kind == "four":
                out = ({}, persis_info, 0, 0)
            elif kind == "flag":
                out = ({}, persis_info, 7)
            elif kind == "busy" and good and busy and len(H):
                if W["active_recv"][ids.index(busy[0])] and False:
                    continue
                Work = {busy[0]: order([0], ["x"])}
            elif kind == "field" and good and idle and len(H):
                Work = {idle[0]: order([0], ["x", "nonsense"])}
            elif kind == "rows" and good and idle and len(H):
                Work = {idle[0]: order([len(H) + 10**6], ["x"])}
            elif kind == "nofields" and good and idle and len(H):
                Work = {idle[0]: order([0], [])}
            elif kind == "worker" and good:
                Work = {max(ids) + 3: order([0] if len(H) else [], ["x"])}
            elif kind == "noinfo" and good and idle:
                Work = {idle[0]: {"H_fields": ["x"], "persis_info": {}, "tag": SIM}}
            else:
                continue
            fr.due.remove(kind)
            fr.note(run, "alloc", kind)
            if Work is not None:
                out = (Work, persis_info, 0)
            return out
        return base(W, H, sim_specs, gen_specs, alloc_specs, persis_info, libE_info)

    return alloc


class DumpRef(Ref):
    """The model, stopped at the dump, with rows of unusable results left out."""

    def __init__(self, run, fr, H0, **kw):
        super().__init__(run, {"data"}, H0=H0, dims={"fvec": 3}, **kw)
        self.fr = fr
        self.skip = set()
        self.bad = set()

    def on_msend(self, e):
        body = e.d["body"]
        if isinstance(body, dict) and "libE_info" in body and any(int(r) >= len(self.rows) for r in body["libE_info"]["H_rows"]):
            return
        super().on_msend(e)

    def on_mget(self, e):
        if self.over or e.d.get("late"):
            return
        if e.d["serial"] in self.run.bad_serials:
            src = self.serial_out.get(e.d["serial"])
            if src is not None and src.d.get("rows") is not None and src.d["role"] == "sim":
                self.skip.update(int(i) for i in src.d["rows"])
            return
        super().on_mget(e)

    def compare(self, H, where):
        rows = self.rows
        for i in self.skip:
            for f in H.dtype.names:
                if f not in ("cancel_requested",) and i < len(H):
                    rows[i].user[f] = H[f][i] if f not in ens_fields else rows[i].user.get(f)
            rows[i].user = {k: v for k, v in rows[i].user.items() if v is not None}
        super().compare(H, where)


from vlib.model import LIBE_FIELDS as ens_fields  # noqa: E402


def run_case(c, rec):
    fr = FaultRun(c["faults"])
    case = c["case"]
    cwd = os.getcwd()
    env = dict(os.environ)
    with tempfile.TemporaryDirectory(prefix="c06_") as tmp:
        os.chdir(tmp)
        try:
            run = execute(c, case, fr)
            files = sorted(os.listdir(tmp))
            judge(c, case, run, fr, files, rec)
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)


def execute(c, case, fr):
    extra = {"save_H_and_persis_on_abort": c["save"]}
    real_init = work.init_run

    def init(*a, **kw):
        run = real_init(*a, **kw)
        run.bad_serials = set()
        prepare(run, fr)
        return run

    work.init_run = init
    try:
        if c["kind"] == "fuzz":
            return work.run_fuzz(case, extra_specs=extra)
        return work.run_supplied(case, extra_specs=extra)
    finally:
        work.init_run = real_init


def prepare(run, fr):
    """Put the faults between the scripted user functions and libEnsemble."""
    real_wrap, real_alloc, real_event = run.wrap, run.wrap_alloc, run._on_event

    def wrap(role, fn):
        return real_wrap(role, (spoiled_sim if role == "sim" else spoiled_gen)(fr, fn))

    def on_event(t, kind, q, item=None, th=None):
        real_event(t, kind, q, item, th)

    def ps_hook(ps, out):
        before = len(fr.hit)
        new = fr.spoil(run, ps.role, ps.w, out, None)
        return new, len(fr.hit) > before

    run.wrap = wrap
    run.wrap_alloc = lambda fn: real_alloc(spoiled_alloc(fr, run, fn))
    run.eng.on_event = on_event
    run.ps_hook = ps_hook


def judge(c, case, run, fr, files, rec):
    run.require_ended()
    require(not run.leftover, lambda: f"workers still in their loop after the failed run: {run.leftover}\n{run.tail()}", "leftover workers")
    dumps = [f for f in files if "at_abort" in f]
    if not fr.hit:
        rec.label("no fault took effect")
        require(run.exc is None, lambda: f"run without failures raised {run.exc!r}\n{run.tail()}", "error without failure")
        require(not dumps, lambda: f"dump {dumps} without a failure", "dump without failure")
        return
    kinds = sorted({(e.d["role"], e.d["fkind"]) for e in fr.hit})
    what = "+".join(f"{a}:{b}" for a, b in kinds)
    for a, b in kinds:
        rec.label(f"{a}: {b}")
    require(run.exc is not None, lambda: f"the run returned normally (flag {run.flag}) after {what}\n{run.tail()}", "failure not reported")
    texts = [e.d["text"] for e in fr.hit if e.d["text"]]
    if len(texts) == len(fr.hit):
        msg = str(run.exc)
        require(any(t in msg for t in texts), lambda: f"error {msg!r} names none of {texts}", "cause not named")
    require(len(str(run.exc)) > 0, "empty error", "cause not named")
    if not c["save"]:
        require(not dumps, lambda: f"dump {dumps} although switched off", "dump although off")
        rec.label("dump off")
        return
    hf = [f for f in dumps if f.endswith(".npy")]
    pf = [f for f in dumps if f.endswith(".pickle")]
    require(len(hf) == 1 and len(pf) == 1, lambda: f"dump files {dumps}\n{run.tail()}", "dump files")
    H = np.load(hf[0], allow_pickle=True)
    n = int(np.sum(H["sim_ended"]))
    require(hf[0] == f"libE_history_at_abort_{n}.npy" and pf[0] == f"libE_persis_info_at_abort_{n}.pickle",
            lambda: f"dump files {dumps}, {n} simulations completed\n{run.tail()}", "dump name")
    with open(pf[0], "rb") as f:
        p = pickle.load(f)
    require(isinstance(p, dict), "persis_info dumped is no dictionary", "persis_info dump")
    # messages taken after the last stop signals are only read to be thrown away
    last = max((i for i, e in enumerate(run.ev) if e.kind == "msend" and e.d["tag"] == 3 and e.d["body"] == 20), default=len(run.ev))
    for e in run.ev[last:]:
        e.d["late"] = True
    # which outputs were unusable
    for i, e in enumerate(run.ev):
        if e.kind == "fault" and e.d["role"] != "alloc" and e.d["fkind"] not in ("exc", "exit"):
            nxt = next((x for x in run.ev[i + 1 :] if x.kind in ("ret", "ps_send") and x.d["w"] == e.d["w"]), None)
            if nxt is not None:
                run.bad_serials.add(nxt.d["serial"])
    ref = DumpRef(run, fr, run.H0, use_ret_gen=bool(case.get("use_ret")), use_ret_sim=bool(case.get("use_ret_sim"))).replay()
    ref.compare(H, "history dumped on abort")
    for r in ref.rows:
        require(r.i in ref.skip or bool(H["sim_ended"][r.i]) == r.ended, lambda: f"row {r.i} of the dump: sim_ended={H['sim_ended'][r.i]}\n{run.tail()}", "sim_ended in the dump")
    before = any(e.kind == "mget" for e in run.ev[: run.ev.index(fr.hit[0])])
    done = ref.stats["sims"] > 0
    if done:
        rec.label("results before the failure")
    if len(fr.hit) > 1:
        rec.label("several failures")
    rec.nontrivial(done and before)


TARGETS = [
    Target("supplied", lambda: strategy("supplied"), run_case, 2600, 40000),
    Target("fuzz", lambda: strategy("fuzz"), run_case, 1400, 20000),
]
