"""C01: every generated point is recorded exactly once and nothing is lost or altered."""
from vlib import ens, work
from vlib.core import Target
from vlib.judge import clean_run, reference, workload_labels

TECHNIQUE = "property-based testing: whole runs on a deterministic schedule, history compared with a reference model"
RULE = (
    "Whole libE() runs with scripted user functions on a deterministic message schedule: (a) 'fuzz': an allocation function "
    "that takes generated decisions, (b) 'supplied': the supplied allocation functions. Generated: batches (sizes, own "
    "sim_ids, updates by sim_id, permuted order, new and missing fields), result shapes (partial vectors, missing/new "
    "fields, none), H0, workers, message delays, exit criteria, where the generator runs. After every allocation call and "
    "at the end the whole history is compared with a reference model fed only by what the user functions produced. "
    "Non-trivial: at least two batches of points and two results were recorded, and a field or row was updated, a partial "
    "vector came, a result overtook an earlier point, or H0 was given."
)
ASSUMPTIONS = ["user functions return arrays of documented form", "a generator that numbers points itself uses gap-free numbers"]


def shard_setup():
    ens.quiet_logs()


def judge(run, case, rec):
    clean_run(run)
    ref = reference(run, case, {"data"})
    s = ref.stats
    workload_labels(rec, case, ref)
    rec.nontrivial(s["gens"] >= 2 and s["sims"] >= 2 and (s["updates"] or s["partial"] or s["unordered"] or bool(case["H0"])))


def fuzz(case, rec):
    judge(work.run_fuzz(case), case, rec)


def supplied(case, rec):
    judge(work.run_supplied(case), case, rec)


TARGETS = [
    Target("fuzz", work.fuzz_strategy, fuzz, 2000, 30000),
    Target("supplied", lambda: work.supplied_strategy(exits=("sim_max", "gen_max", "both")), supplied, 1200, 16000),
]
