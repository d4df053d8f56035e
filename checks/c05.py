"""C05: shutdown is complete: every worker is told to stop and finished work is kept."""
from vlib import ens, work
from vlib.core import Target
from vlib.judge import clean_run, reference, shutdown, workload_labels

TECHNIQUE = "property-based testing: whole runs on a deterministic schedule, shutdown protocol and final history checked against a model"
RULE = (
    "Whole runs (supplied allocation functions with persistent generators and simulators, several at once, active receive, "
    "final_gen_send, data returned on exit with the options on and off; and generated allocation decisions) that end through "
    "each exit criterion, the clock, or a generator leaving. Judged on the trace: the run returns, every worker gets a stop "
    "signal and leaves its loop, persistent functions are told first and have returned before, late results and data "
    "returned on exit are in the final history exactly as the options say, and the final rows sent to a generator are the "
    "finished ones it has not seen. Non-trivial: a persistent function was stopped, or results arrived during the shutdown."
)
ASSUMPTIONS = [
    "a generator told to stop does not leave work behind that it did not send",
    "with several generators, each finished unseen result is required to go to at most one of them",
]


def shard_setup():
    ens.quiet_logs()


def judge(run, case, rec):
    clean_run(run)
    st = shutdown(run, case)
    ref = reference(run, case, {"data", "life"})
    workload_labels(rec, case, ref)
    for k in st:
        if st[k]:
            rec.label(k)
    rec.label(f"flag {run.flag}")
    rec.nontrivial(st["persis_stopped"] or st["late"])


def supplied(case, rec):
    judge(work.run_supplied(case), case, rec)


def fuzz(case, rec):
    judge(work.run_fuzz(case), case, rec)


EX = ("sim_max", "gen_max", "both", "stop_val", "wallclock_max")
TARGETS = [
    Target("supplied", lambda: work.supplied_strategy(allocs=("opg", "opg", "opg", "gswf", "fast"), exits=EX, psim=True), supplied, 2400, 30000),
    Target("fuzz", work.fuzz_strategy, fuzz, 800, 10000),
]
