"""C03: work reaches the right worker with the right data, and results the right rows."""
from vlib import ens, work
from vlib.core import Target
from vlib.judge import clean_run, reference, routing, workload_labels

TECHNIQUE = "property-based testing: whole runs on a deterministic schedule, every call and result compared with the work orders"
RULE = (
    "The run workloads of C01 (row subsets, row orders and field subsets chosen by generated decisions, responses delayed "
    "by generated amounts). Judged on the message trace: each order sent equals the order asked for, carries the values the "
    "history held at that moment, goes to an idle worker, and reaches the right user function unchanged; no point is given "
    "out twice; the history ends up as the reference model says. Non-trivial: two workers were busy at once, and results "
    "came back in another order than given out or orders had more than one row."
)
ASSUMPTIONS = ["bookkeeping fields (flags, times) inside the rows sent are not compared, only data fields and sim_id"]


def shard_setup():
    ens.quiet_logs()


def judge(run, case, rec):
    clean_run(run)
    st = routing(run, case)
    ref = reference(run, case, {"data"})
    workload_labels(rec, case, ref)
    multi = any(e.kind == "call" and e.d["role"] == "sim" and len(e.d["rows"]) > 1 for e in run.ev)
    if multi:
        rec.label("several rows in one order")
    rec.nontrivial(st["overlap"] > 0 and (ref.stats["unordered"] or multi))


def fuzz(case, rec):
    judge(work.run_fuzz(case), case, rec)


def supplied(case, rec):
    judge(work.run_supplied(case), case, rec)


TARGETS = [
    Target("fuzz", work.fuzz_strategy, fuzz, 2000, 30000),
    Target("supplied", lambda: work.supplied_strategy(exits=("sim_max", "gen_max", "both", "stop_val"), kill=True), supplied, 1400, 16000),
]
