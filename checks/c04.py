"""C04: runs stop when, and only when, an exit criterion or the generator says so."""
from vlib import ens, work
from vlib.core import Target
from vlib.judge import clean_run, exit_rules, workload_labels

TECHNIQUE = "property-based testing: whole runs on a simulated schedule and clock, exit rules checked against the message trace"
RULE = (
    "Whole runs with the supplied allocation functions under generated exit criteria (sim_max, gen_max, both, stop_val with "
    "nan values, wallclock_max on a simulated clock), H0, worker delays and generators. Judged on the trace: at every "
    "allocation call but the last no criterion holds; orders are only sent while fewer than sim_max new points were given "
    "out; at the end a criterion holds or the allocation function asked for the end; the exit flag is 2 exactly if cut by "
    "the clock with work outstanding. Non-trivial: at least two allocation calls with work, and the run was ended by a "
    "criterion at a moment when another order was outstanding or after H0 rows were given."
)
ASSUMPTIONS = ["the wall clock is simulated; 5 ms tolerance around the limit"]


def shard_setup():
    ens.quiet_logs()


class _S:
    stats = {"unordered": 0, "partial": 0, "updates": 0, "informed": 0}


def judge(run, case, rec):
    clean_run(run)
    st = exit_rules(run, case)
    workload_labels(rec, case, _S)
    for m in st["met"] + (["wallclock"] if st["by_wall"] else []) + (["asked"] if st["flag"] else []):
        rec.label("ended by " + m)
    if st["cut"]:
        rec.label("cut with work outstanding")
    n = sum(1 for e in run.ev if e.kind == "alloc_out" and e.d["Work"])
    rec.nontrivial(n >= 2 and (st["met"] or st["by_wall"]) and (run.nw > 1 or st["H0"]))


def supplied(case, rec):
    judge(work.run_supplied(case), case, rec)


EX = ("sim_max", "gen_max", "both", "stop_val", "stop_val", "wallclock_max", "wallclock_max")
TARGETS = [
    Target("supplied", lambda: work.supplied_strategy(exits=EX, psim=True), supplied, 3200, 40000),
]
