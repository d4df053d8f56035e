#!/usr/bin/env python3
"""Writes known_findings.json: defects found by the checks in libensemble, repaired ("fixed") or recorded ("known").

Only "known" entries have an effect on a check, and only for the property and the signature they name."""
import json
import os
import subprocess

# (properties, start of the subject of the fix commit, what failed)
FIXED = [
    ("C16 C01", "array returned alone by a user function", "a structured array with 1-3 rows returned alone was unpacked row by row as (H, persis_info, status)"),
    ("C01", "new history fields can be added when", "a batch that brought a new field next to a known one in another shape ended the run with an assertion"),
    ("C02", "count and time-stamp as generator-informed", "rows not evaluated, or given back before, were counted and stamped as generator-informed"),
    ("C07 C13", "never give out a point beyond the history", "with the last points of the history cancelled, give_sim_work_first gave out rows beyond the history or stalled"),
    ("C05", "final_gen_send does not leave a generator waiting", "with nothing left to send, the generator got no stop signal and the run hung"),
    ("C05", "worker discards final rows sent to a persistent", "final rows for a persistent function that had just returned started it as a new calculation"),
    ("C05", "final_gen_send works with generators in active", "final_gen_send failed an assertion for a generator in active receive mode"),
    ("C16 C05", "results sent to an active-receive generator", "results sent to an active-receive generator that had just returned started it anew as a non-persistent call"),
    ("C07", "send one kill signal to a worker however many", "a worker got one kill signal for each cancelled point of its batch"),
    ("C07", "canceled sims are killed also if a point with", "a running point was not killed if a point with a lower sim_id had been given out later"),
    ("C04", "points of H0 not yet given back", "points of H0 were counted as newly generated when returned to the generator, ending the run before gen_max"),
    ("C09", "requests larger than a group are scheduled", "with nodes split into smaller groups, requests that fit were refused"),
    ("C10", "slots of a worker match those of the scheduler", "with resource sets dealt unevenly over nodes, worker slots differed from the scheduler's"),
    ("C10", "a worker given no resource sets does not keep", "a worker given no resource sets kept the slots of the team before"),
    ("C11", "a platform's GPU option is used also", "gpu option of the platform was dropped for MPI runners with no default GPU option"),
    ("C11", "processes given in extra_args are not rounded up", "run line with process count in extra_args and another rounded-up count for nodes x processes per node"),
    ("C12", "core counts are read from LSB_MCPU_HOSTS", "no core counts if LSB_HOSTS was empty"),
    ("C06 C02", "values a persistent simulator returns on exit", "simulations whose values a persistent simulator corrected on exit were counted twice (abort dump misnamed)"),
    ("C06", "workers are stopped also if an error occurs", "after bad data received while winding down, workers were never stopped and libE() hung"),
    ("C16 C06", "worker stops on a finish signal received", "a user function that got the finish signal and returned its own status left the worker waiting forever"),
    ("C06", "run does not hang if a persistent function", "the run hung at its end if a persistent function had returned without its final status"),
    ("C06", "work orders for rows beyond the history", "a worker sent such an order took the stop signal for its rows and never ended"),
    ("C25", "log messages with exception information", "log records with exception information or unpicklable arguments were lost or broke the worker"),
    ("C25", "statistics of worker calculations are written", "statistics lines were missing at log levels above INFO"),
    ("C25", "log and statistics lines of workers run as threads", "lines of workers run as threads did not name the worker"),
    ("C25 C23", "MPI workers leave no log message behind", "log messages left unreceived by one libE() call were received by the next one on the communicator, or hung it"),
    ("C15 C16", "a message pushed back to a queue communicator", "mail_flag did not see a pushed-back message"),
    ("C16", "polling for a manager signal does not discard", "manager_poll discarded work orders that were waiting"),
    ("C16", "keyword-only parameters of user functions", "keyword-only parameters were counted as positional ones and the call failed"),
    ("C08", "default resource sets are not given to persistent", "default resource sets were assigned again to running persistent workers, and to the manager's generator"),
    ("C08", "assigning a resource set that another worker", "the check for a resource set held by another worker failed itself instead of raising ResourceManagerException"),
    ("C08", "an empty rset_team passed to sim_work", "an explicit empty rset_team was ignored"),
    ("C10 C08", "a number of GPUs given as zero", "zero GPUs in resource_info were replaced by the platform's or a detected number"),
    ("C27", "finite-difference stencils are built in any dimension", "fd_param_finder failed, or mixed up its stencil, unless x had two dimensions"),
    ("C27", "fd_param_finder ends when there is no parameter", "it sent an empty batch and waited for ever, which ended the run with an error"),
    ("C27", "persistent_uniform_final_update draws from its random", "points came from the global random state"),
    ("C27", "borehole function is evaluated for every point", "all points of a batch got the value of the first one"),
    ("C27", "batched_history_matching works in one", "an error for problems in one dimension"),
    ("C20", "list_dicts_to_np finds types", "types were taken from the first record: texts cut, floats truncated in later ones"),
    ("C20", "list_dicts_to_np accepts records without _id", "records without _id raised KeyError if another had one"),
    ("C20", "list_dicts_to_np fills mapped fields of a given", "mapped fields of a given dtype stayed zero, and the caller's dtype list was changed"),
    ("C20", "unmap_numpy_array keeps the width", "texts of mapped fields were cut to the width of the first one"),
    ("C20", "map_numpy_array copies fields that are not mapped", "fields that are not mapped were lost, or values of other types cast"),
    ("C20", "np_to_list_dicts gives scalars for mapped fields", "arrays of length one were returned in place of scalars"),
    ("C20", "results are unmapped for standard generators", "only the first batch of results was unmapped for the generator"),
    ("C20", "gest_api_sim does not evaluate a point twice", "a TypeError raised within the simulator caused a second evaluation"),
    ("C20", "H0 points without _id are not given", "points of H0 were recorded with the _id of a generated point (0)"),
    ("C20", "standard generators may be stopped right after", "None was ingested, an error, if the stop came after the first batch"),
    ("C20", "_id stays unset in arrays made of records", "records without _id got _id 0"),
    ("C20", "text constants of a VOCS", "text constants were given a float field, an error"),
    ("C20", "results sent at the end to a standard generator", "the final results were returned as new points"),
    ("C20", "export unmaps fields once", "a variable with the name of a mapped field was lost on export"),
    ("C20", "libE generators work on ensembles with the fields", "UniformSample with VOCS fields had zeros evaluated in place of its points"),
    ("C19", "saved histories are complete under their name", "older files were removed before the new one was written (in place), foreign files were removed, and a file of an earlier run with the same name was kept in place of the history"),
    ("C14", "safe mode restores protected fields", "values written by an allocation function stayed in the history (and its dump) after the error"),
    ("C14 C06", "an error in the final data of a persistent", "bad final data of a persistent function hung the run"),
    ("C22", "the fields of H0 take types that hold new values", "values of new points were cut to the types of H0; sim_max 0 overwrote fields of H0; H0 with gaps brought fields of its own; sim_ended without sim_started was refused; resource_sets of H0 points were 0"),
    ("C22", "allocation by next_to_give does not give points", "ended points of H0 were evaluated again with pregenerated work and the fast allocation functions"),
    ("C13", "only_persistent_gens gives no simulations to generator-only", "with alt_type, a generator-only worker was given a simulation"),
    ("C13", "fast_alloc_and_pausing does not replace a simulation", "a worker given a simulation in a call could be given a generator call in the same call, so that the simulation was lost"),
    ("C24", "APOSMM accepts that a local optimization run ends", "APOSMM failed with an assertion if a local optimization run ended at its starting point"),
    ("C18", "a relative sim_input_dir or gen_input_dir given as a Path", "a relative Path as input directory was looked for in the workflow directory, and the run failed"),
    ("C18", "an input file is not copied through a symlink", "where one kind of calculation links and the other copies a file of the same name, the copy was written into the linked input file; with reuse, a link to a directory could not be replaced"),
    ("C18", "workers are stopped when the directory for copying back", "workers stayed behind and the run hung if the directory for copying back existed"),
    ("C18", "the directory for copying back is made even if", "the manager could fail to make the directory for copying back before the workflow directory was made"),
    ("C18", "results in a relative ensemble_dir_path inside a workflow", "an existing relative ensemble directory in a workflow directory was not noticed and its results overwritten"),
    ("C18", "files named like calculation directories are copied back", "files such as sim3.out in the ensemble directory were not copied back"),
    ("C18", "generator calls on different workers get different", "generator calls on different workers shared a directory, or failed over its content"),
    ("C18", "copying back does not write through links", "with reuse, copying back wrote into input files through links copied by an earlier run"),
    ("C18", "with reuse_output_dir, a symlink can replace", "with reuse, a link could not replace a directory or dangling link"),
]
# {"property":..., "sig":..., "what":...}
KNOWN = [
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for props, subj, what in FIXED:
    hit = [line.split()[0] for line in log if line.split(" ", 1)[1].startswith("fix: " + subj)]
    assert len(hit) == 1, (subj, hit)
    for p in props.split():
        out.append({"property": p, "status": "fixed", "commit": hit[0], "what": what, "entry": f"fixed: property={p} {hit[0]} {what}"})
for k in KNOWN:
    out.append({"status": "known", **k})
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out))
