"""C07: cancelling a point is honoured: not evaluated if pending, killed once if running."""
from hypothesis import strategies as st

from vlib import ens, work
from vlib.core import Target
from vlib.judge import cancelling, clean_run, reference, workload_labels

TECHNIQUE = "property-based testing: generated cancellation histories on a deterministic schedule, checked against the message trace"
RULE = (
    "Runs in which generators cancel points at generated moments (with new points, by updates, and with "
    "request_cancel_sim_ids), while simulations are pending, running or done, several points per order included. Judged on "
    "the trace: no cancelled point is given out, kill signals go once and only to workers that run a cancelled simulation, "
    "at the latest one allocation round after the cancellation arrived, and the cancellation mark is kept. Non-trivial: a "
    "point was cancelled while pending or while running, and another point was evaluated."
)
ASSUMPTIONS = ["a cancellation is never taken back by the generator"]


def shard_setup():
    ens.quiet_logs()


def judge(run, case, rec):
    clean_run(run)
    st_ = cancelling(run, case)
    ref = reference(run, case, {"kill"} if case.get("kill") else {"data"})
    if case["exit"].get("sim_max") and not case["exit"].get("wallclock_max"):
        pass
    workload_labels(rec, case, ref)
    for k in ("cancel_pending", "cancel_running", "kills"):
        if st_[k]:
            rec.label(k)
    rec.nontrivial((st_["cancel_pending"] or st_["cancel_running"]) and st_["given"])


def supplied(case, rec):
    judge(work.run_supplied(case), case, rec)


@st.composite
def cancel_strategy(draw):
    """A persistent generator in active receive mode that cancels earlier points while they run."""
    c = draw(work.supplied_strategy(allocs=("opg",), exits=("sim_max",), kill=True, own=False, H0="any", gom=False))
    c["user"] = {"async_return": draw(st.booleans()), "active_recv_gen": draw(st.sampled_from([True, True, False])), "num_active_gens": 1}
    if draw(st.booleans()):
        c["user"]["give_all_with_same_priority"] = True
    c["popts"]["active"] = c["user"]["active_recv_gen"]
    c["popts"]["tries"] = draw(st.integers(0, 2))
    c["kill"] = draw(st.sampled_from([True, True, False]))
    b = work.batch(prio=draw(st.sampled_from([None, "all"])), cancel=True, form=False)
    scr = draw(st.lists(b, min_size=2, max_size=7))
    cids = draw(st.lists(st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=4)), min_size=len(scr), max_size=len(scr)))
    scr = [dict(x, n=max(2, x["n"]), cancel_ids=i) for x, i in zip(scr, cids)]
    c["gens"] = [scr]
    c["exit"] = {"sim_max": draw(st.integers(3, 24))}
    c["delays"] = draw(st.lists(st.integers(0, 9), min_size=1, max_size=10))
    return c


TARGETS = [
    Target("cancel", cancel_strategy, supplied, 2000, 25000),
    Target("supplied", lambda: work.supplied_strategy(exits=("sim_max", "gen_max"), kill=True), supplied, 1000, 12000),
]
