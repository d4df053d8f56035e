"""C02: life-cycle flags, times, owners and counters agree with what happened."""
from vlib import ens, work
from vlib.core import Target, require
from vlib.judge import clean_run, reference, workload_labels

TECHNIQUE = "property-based testing: whole runs on a deterministic schedule, life-cycle fields compared with a reference model"
RULE = (
    "The run workloads of C01, plus wall-clock limits and cancellations. A reference model derives from the observed "
    "messages what every flag, owner, time interval and counter must be; it is compared with the history at every "
    "allocation call and with the returned history. Non-trivial: at least three points were evaluated, a generator was "
    "informed of a result, and either results came back in another order than given out or two workers evaluated points."
)
ASSUMPTIONS = ["times are compared with intervals of the (simulated, strictly increasing) clock"]


def shard_setup():
    ens.quiet_logs()


def judge(run, case, rec):
    clean_run(run)
    ref = reference(run, case, {"life"})
    H = run.H
    new = H[ref.offset:]
    for what, ok in (
        ("ended but not started", new["sim_started"] | ~new["sim_ended"]),
        ("informed but not ended", new["sim_ended"] | ~new["gen_informed"]),
    ):
        require(ok.all(), lambda: f"rows {what}: {[i + ref.offset for i in range(len(new)) if not ok[i]]}", what)
    s = ref.stats
    workload_labels(rec, case, ref)
    workers = {int(w) for w in H["sim_worker"][H["sim_ended"]]}
    rec.nontrivial(s["sims"] >= 3 and s["informed"] and (s["unordered"] or len(workers) > 1))


def fuzz(case, rec):
    judge(work.run_fuzz(case), case, rec)


def supplied(case, rec):
    judge(work.run_supplied(case), case, rec)


TARGETS = [
    Target("fuzz", work.fuzz_strategy, fuzz, 1600, 25000),
    Target(
        "supplied",
        lambda: work.supplied_strategy(exits=("sim_max", "gen_max", "both", "stop_val", "wallclock_max"), kill=True),
        supplied,
        1600,
        20000,
    ),
]
