"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                **({"observe_at": observe} if observe else {}),
                "hook_needed": None,
            },
        }
    )


L = "libensemble/"

prop(
    "C01", "Every generated point is recorded exactly once and nothing is lost or altered",
    "Every point that a generator hands over appears in the returned history exactly once, in its own row with a unique, gap-free sim_id, carrying exactly the values the generator gave it. "
    "Every evaluated row carries exactly the values its simulation returned, and no other row is changed by it. "
    "This holds however the history array has to grow (more rows, new fields, partial vectors, points updated by sim_id, points given in advance as H0).",
    ["histories", "inputs", "schedules"],
    "all sequences of generator batches (with or without sim_ids, updates of old rows, new fields), hand-outs and results in any order and batch size, for any H0 and initial capacity",
    "The tests check a few fixed runs; array growth, field growth, out-of-order returns and updates by sim_id interact, and no test compares the whole history with what was produced.",
    [L + "history.py", L + "manager.py"],
    [("history array and its growth", L + "history.py: History"), ("slotting in generator and simulation results", L + "history.py, " + L + "manager.py")],
    ["H returned by libE()", "History.H / trim_H() after every operation"],
    [("H", "structured array of all points", L + "history.py")],
)
prop(
    "C02", "Life-cycle flags, times, owners and counters agree with what happened",
    "At every moment a point is marked started exactly if it was handed out for evaluation, ended exactly if its result came back, and generator-informed exactly if its finished result was sent to a generator; ended implies started and informed implies ended. "
    "The recorded generator and simulation workers are the ones that did the work, and every recorded time falls within the interval in which the event took place, so times follow the order generated, started, ended, informed. "
    "The counts of started, ended and informed points given to allocation functions equal the number of rows so marked.",
    ["histories", "schedules"],
    "all interleavings of generation, hand-out, return and feedback, including duplicates, batches, cancellations and H0",
    "Tests check final flags of complete runs with one natural return order; intermediate states and unusual orders are never compared with a log of the events.",
    [L + "history.py", L + "manager.py", L + "tools/fields_keys.py"],
    [("bookkeeping on hand-out, return and feedback", L + "history.py: update_history_*"), ("statistics for allocation functions", L + "manager.py: libE_info for alloc_f")],
    ["H and libE_info as seen by the allocation function on every call", "H returned by libE()"],
)
prop(
    "C03", "Work reaches the right worker with the right data, and results the right rows",
    "Each simulation or generator call receives exactly the history rows and fields that the allocation function requested for it, with the values those rows had when the work was given out, and a worker never gets new work while it is busy. "
    "With the supplied allocation functions each point is evaluated at most once, and by one worker only. "
    "In whatever order workers respond, each result ends up in the rows that were given out for it and in no others.",
    ["schedules", "inputs", "histories"],
    "all response orders and delays of up to several workers, all row sets, field selections and dtypes, all supplied general-purpose allocation functions",
    "Tests run with whatever order the operating system yields and only check aggregate counts.",
    [L + "manager.py", L + "worker.py", L + "history.py", L + "alloc_funcs/give_sim_work_first.py", L + "alloc_funcs/start_only_persistent.py"],
    [("work orders and row transfer", L + "manager.py, " + L + "worker.py"), ("attribution of results by row", L + "history.py")],
    ["arguments seen by every user function call", "H returned by libE()"],
)
prop(
    "C04", "Runs stop when, and only when, an exit criterion or the generator says so",
    "A run never hands out simulation work once the requested number of new simulations has been given out, and it ends once that many new simulations have completed, once that many new points have been generated, once some completed point has a value at or below the given threshold (values that are not a number never count), or once the wall-clock limit has passed; it does not end before one of these unless the allocation function or generator asks for it. "
    "Points supplied in advance as H0 do not count towards the limits on new simulations and new points, and the exit flag is 2 exactly when the run was cut short by the wall clock with work still outstanding, else 0 for a run without errors.",
    ["schedules", "configurations", "histories"],
    "all combinations of criteria, batch sizes, worker counts, response orders, clock positions and H0 contents",
    "Each criterion is tested alone on one or two fixed runs; the combination with in-flight work, H0 and batches is not.",
    [L + "manager.py", L + "history.py", L + "specs.py"],
    [("termination tests and sim_max gate", L + "manager.py"), ("offsets for H0", L + "history.py")],
    ["number and order of user function calls", "H and exit flag returned by libE()"],
)
prop(
    "C05", "Shutdown is complete: every worker is told to stop and finished work is kept",
    "However a run without errors ends, every worker receives a stop signal and returns from its loop, every persistent function is first told to stop and gets the chance to return, and the run itself returns. "
    "Results of simulations that come back while the run is winding down are recorded in the history, data returned by persistent functions on exit is recorded exactly if the corresponding option asks for it, and with final_gen_send a persistent generator receives every finished result it has not seen, exactly once.",
    ["schedules", "configurations"],
    "all response orders around the end of the run, all positions of in-flight work, persistent generators and simulators (also in active receive mode), all option settings",
    "Tests use a natural schedule, in which late results and stop signals rarely cross.",
    [L + "manager.py", L + "worker.py", L + "tools/persistent_support.py", L + "libE.py"],
    [("final receive and stop handshake", L + "manager.py"), ("worker loop exit", L + "worker.py")],
    ["messages received by persistent functions", "liveness of workers after libE() returns", "H returned by libE()"],
)
prop(
    "C06", "Any failure ends the run, is reported, and loses no completed work",
    "If a user function raises an exception, returns unusable data, or the allocation function misbehaves, at whatever point of the run, libE() raises an error naming the cause instead of hanging or returning normally, and all workers stop. "
    "The history and persis_info dumped on abort contain every point generated and every simulation result received up to then, unchanged, in files named after the number of completed simulations; no dump is made when that is switched off.",
    ["fault_sequences", "crash_points", "schedules"],
    "an exception or bad return value in any call of any user function (generator, simulator, persistent or not, allocation function), under all response orders, also several at once",
    "Tests inject a single failure in a couple of fixed places.",
    [L + "manager.py", L + "worker.py", L + "libE.py"],
    [("error message from worker, abort dump", L + "worker.py, " + L + "libE.py"), ("stop of remaining workers", L + "manager.py")],
    ["exception from libE()", "libE_history_at_abort_*.npy and libE_persis_info_at_abort_*.pickle", "liveness of workers"],
)
prop(
    "C07", "Cancelling a point is honoured: not evaluated if pending, killed once if running",
    "A point whose cancellation was requested before it was handed out is never evaluated by the supplied allocation functions, while all other points still are. "
    "With kill_canceled_sims on, every cancelled simulation that is still running gets a kill signal, exactly once and only on the worker running it; no other worker is signalled, and its result is still accepted. "
    "With the option off no kill signal is sent, and the cancellation mark is never lost.",
    ["schedules", "histories"],
    "all sets and times of cancellation requests relative to hand-out and completion, all hand-out orders (priorities) and response orders",
    "Tests cancel in one fixed pattern with points handed out in order.",
    [L + "manager.py", L + "history.py", L + "tools/persistent_support.py", L + "tools/alloc_support.py", L + "alloc_funcs"],
    [("scan for cancelled running points", L + "manager.py: kill signals"), ("window of rows to scan", L + "history.py")],
    ["signals received by each worker", "H returned by libE()"],
)
prop(
    "C08", "No resource is ever assigned to two workers at once, and none leaks",
    "At every moment of a run, the resource sets held by different busy workers are disjoint, every worker that holds some was given at least as many as its work asked for (and GPU-equipped ones if it needs GPUs), and persistent workers keep theirs until they leave persistent mode. "
    "When work finishes its resources become free again, so that a later request that fits into the whole pool is eventually served.",
    ["schedules", "histories", "configurations"],
    "all sequences of simulations with varying resource needs, generators with resources, response orders, node/slot/GPU layouts and scheduler options",
    "Tests inspect the assignment of a few fixed sequences.",
    [L + "resources/worker_resources.py", L + "resources/scheduler.py", L + "manager.py", L + "tools/alloc_support.py"],
    [("assignment table", L + "resources/worker_resources.py: ResourceManager"), ("release on return", L + "manager.py")],
    ["rset_team seen by each user function call", "state of the resource manager after every message"],
)
prop(
    "C09", "The scheduler gives well-formed resource teams and refuses only when it must",
    "For any request and any set of free resource sets, the scheduler either returns distinct free resource sets of the requested kind, at least as many as requested, spread evenly over the fewest nodes it can use (with the same slots on every node if slots must match), or refuses and leaves its state as it was. "
    "It refuses with a permanent error only if the request exceeds what exists, and with a temporary one only if the free sets cannot be made to fit under the chosen options; repeated requests against one snapshot never hand out a set twice.",
    ["inputs", "configurations", "histories"],
    "all node/slot layouts (also uneven and mixed GPU/non-GPU), occupancies, request sizes and option settings, and sequences of requests",
    "Tests enumerate a few hand-written layouts.",
    [L + "resources/scheduler.py", L + "resources/worker_resources.py"],
    [("slot search", L + "resources/scheduler.py: ResourceScheduler.assign_resources")],
    ["return value or exception of assign_resources"],
)
prop(
    "C10", "Workers' nodes, slots, cores and GPUs partition the machine",
    "Resource sets divide the given nodes without overlap: each set lies on whole nodes or on one slot of one node, the slots on a node are numbered from zero, sets are dealt as evenly as possible, and together they never claim more cores or GPUs than a node has. "
    "The nodes, slot counts, and GPU environment settings that a worker derives from its assigned sets name exactly those resources, so workers with disjoint sets never name the same node slot or GPU.",
    ["configurations", "inputs"],
    "all node counts, worker/resource-set counts, GPU counts, zero-resource workers and assigned teams",
    "Tests check a few even divisions.",
    [L + "resources/rset_resources.py", L + "resources/worker_resources.py", L + "resources/resources.py", L + "resources/node_resources.py"],
    [("division of nodes", L + "resources/rset_resources.py"), ("slots, GPUs and environment per worker", L + "resources/worker_resources.py")],
    ["attributes and environment setters of the worker resources object"],
)
prop(
    "C11", "MPI launch configurations are consistent and stay inside the worker's resources",
    "For any combination of process, node, processes-per-node, hyperthread and GPU requests, the MPI run line that is built is self-consistent (processes equal nodes times processes per node), honours every value the user fixed, and uses only nodes assigned to the worker and no more of them or of their slots than were assigned, unless the worker is not limited by resources; what cannot be honoured is refused with an error instead of silently changed, except that processes that libEnsemble itself derived or spread are rounded up to divide evenly over the nodes, and GPU requests are limited to those assigned. "
    "The run line given to the launcher expresses exactly that configuration in the chosen MPI runner's syntax.",
    ["inputs", "configurations"],
    "all request combinations, resource layouts and supported MPI runners",
    "Tests list expected strings for a few dozen fixed combinations.",
    [L + "executors/mpi_runner.py", L + "executors/mpi_executor.py", L + "resources/mpi_resources.py"],
    [("resource completion", L + "resources/mpi_resources.py: get_resources, task_partition"), ("run line templates", L + "executors/mpi_runner.py")],
    ["task.runline and generated machinefile/host list of a dry run"],
)
prop(
    "C12", "Node lists supplied by batch systems are decoded exactly",
    "For each supported batch system, the list of nodes that libEnsemble derives from the environment is exactly the list the batch system describes: every node once, in the given order (sorted for Slurm and Cobalt), with zero padding and prefixes/suffixes preserved, and launch nodes excluded where documented. "
    "When several sources are present the documented precedence is followed, and the core and node counts derived are consistent with them.",
    ["inputs", "configurations"],
    "all node names, ranges, lists and nested groups in the compressed formats of Slurm, Cobalt, PBS and LSF, and node files",
    "Tests decode about a dozen fixed strings.",
    [L + "resources/env_resources.py", L + "resources/resources.py"],
    [("decoders", L + "resources/env_resources.py"), ("precedence", L + "resources/resources.py")],
    ["node list returned for a given environment"],
)
prop(
    "C13", "Supplied allocation functions follow their documented policy and never stall",
    "The supplied allocation functions give work only to idle workers of the right kind, hand out available points in priority order (all points of equal top priority together if asked), never start more generators than allowed, return results to a persistent generator in batch or as they come in as configured and each result once to the generator that created the point, and start no new generation in batch mode while results are outstanding. "
    "As long as there are free workers and unfinished points that may be given out, they are given out, so a run makes progress to its exit criterion.",
    ["schedules", "configurations", "histories"],
    "all worker states, histories with priorities and cancellations, options and response orders reachable in a run",
    "Tests run each function in one or two scripts and check the totals.",
    [L + "alloc_funcs", L + "tools/alloc_support.py"],
    [("allocation policies", L + "alloc_funcs/*.py"), ("queries over worker and history state", L + "tools/alloc_support.py")],
    ["Work returned for every call made in a run"],
)
prop(
    "C14", "Safe mode keeps user functions from changing protected fields",
    "With safe_mode on, no user function (generator, simulator, persistent function or allocation function) can change a protected history field of any point: an attempt ends the run with an error and the protected values stay as they were. "
    "Fields that are not protected, including sim_id and cancel_requested, stay writable, and runs that do not touch protected fields give the same results with safe_mode on and off.",
    ["inputs", "histories", "schedules"],
    "any protected field, any set of returned fields and rows, any of the user functions, at any point of the run",
    "One test tries one field from one place.",
    [L + "manager.py", L + "history.py", L + "tools/fields_keys.py"],
    [("field checks", L + "history.py"), ("comparison around the allocation call", L + "manager.py")],
    ["exception from libE() and dumped history", "H returned by libE()"],
)
prop(
    "C15", "Communicators deliver every message once, in order, and report ends and errors",
    "On every kind of communicator, messages sent in one direction are received exactly once, unchanged and in the order sent; a receive with a time limit raises a timeout when nothing arrives and never drops or reorders messages, and a probe says whether a message is waiting. "
    "When the remote function ends, its return value or its exception (with its text) is obtained on the other side exactly as it happened, after which reading reports the end instead of blocking.",
    ["histories", "schedules", "inputs"],
    "all interleavings of send, receive, timed receive, probe, push-back, result and terminate, and all picklable payloads, for thread, process, TCP and MPI communicators",
    "Tests exchange a handful of messages in one fixed order.",
    [L + "comms/comms.py", L + "comms/tcp_mgr.py", L + "comms/mpi.py"],
    [("queue based comms", L + "comms/comms.py"), ("sockets and managers", L + "comms/tcp_mgr.py"), ("MPI messages", L + "comms/mpi.py")],
    ["messages and exceptions seen on either side"],
)
prop(
    "C16", "Workers call user functions as documented and pass back all they return",
    "A user function accepting any prefix of the documented arguments is called with exactly those arguments, and every documented form of return value (array alone, with persis_info, with a status, with all three, or nothing) reaches the manager with its meaning preserved. "
    "Persistent functions exchange data through the persistent support class such that every send is delivered in order, every receive yields the tag, work record and rows of one manager message, a stop signal is never missed or consumed twice, and after leaving persistent mode the worker can be used for other work.",
    ["schedules", "inputs", "histories"],
    "all signatures and return forms, all orders of work, stop and kill messages, blocking and non-blocking receives, plain and threaded functions",
    "Tests cover the common forms with one message order.",
    [L + "worker.py", L + "utils/runners.py", L + "tools/persistent_support.py"],
    [("call and return handling", L + "worker.py, " + L + "utils/runners.py"), ("persistent protocol", L + "tools/persistent_support.py")],
    ["messages sent by a worker in answer to scripted manager messages"],
)
prop(
    "C17", "Tasks are always in a truthful state and a killed task is really gone",
    "A launched task's state follows created, running, and then exactly one final state that matches how its process ended (finished on exit code zero, failed on any other or on a signal, user-killed if killed through libEnsemble, failed to start if it could not be launched), with matching exit code, success flag, times and output files, and a final state never changes. "
    "Killing, cancelling, a timeout or a manager signal leaves no process of the task running, and waiting or polling returns as documented whatever the order of calls.",
    ["histories", "schedules", "fault_sequences"],
    "all sequences of submit, poll, wait, kill, cancel, result and polling-loop calls with time limits and manager signals, on processes that exit, crash, hang, ignore signals, or spawn children",
    "Tests run a few fixed sequences with generous sleeps.",
    [L + "executors/executor.py", L + "executors/mpi_executor.py", L + "utils/launcher.py"],
    [("task state machine", L + "executors/executor.py"), ("process group kill", L + "utils/launcher.py"), ("retry on launch failure", L + "executors/mpi_executor.py")],
    ["task attributes", "process table for the processes started by the task", "output files"],
)
prop(
    "C18", "Each calculation gets its own directory with the right inputs, nothing is lost",
    "With calculation directories on, every simulation (and generator) call runs in a directory of its own that no other call uses, named after its points or count (and under its worker if asked), containing all input files to be copied or linked, and the worker is back in its previous directory afterwards, also after an error. "
    "Existing results are never overwritten unless reuse is allowed, inputs are never modified, and with copy-back every file produced is found at the destination.",
    ["configurations", "inputs", "histories"],
    "all settings of the directory options, input trees, name widths, row sets, worker counts and sequences of calls including failures and repeated runs",
    "Tests run a dozen fixed option sets and check a few directory names.",
    [L + "utils/output_directory.py", L + "utils/loc_stack.py", L + "utils/misc.py", L + "worker.py", L + "manager.py"],
    [("directory set-up and copy-back", L + "utils/output_directory.py"), ("location stack", L + "utils/loc_stack.py")],
    ["file tree after the calls", "current directory seen by user functions"],
)
prop(
    "C19", "Saved histories are complete and loadable at every moment they exist",
    "With saving every k simulations or points on, whenever at least k have completed a history file exists that loads without error and equals the history as it was at the time of saving, whose count in the file name is the largest multiple of k reached; older files of the run are removed only after newer ones replace them, and other files are left alone. "
    "At the end of a run that asks for it, a file with the complete final history is left, equal to the history returned.",
    ["histories", "crash_points", "configurations"],
    "all k, batch sizes, schedules, prefixes and both kinds of counter, observed at any moment of the run",
    "Tests only look for the expected file name at the end of one run.",
    [L + "manager.py", L + "specs.py"],
    [("periodic save", L + "manager.py: _save_every_k*")],
    ["files in the run directory at every allocation call and at the end"],
)
prop(
    "C20", "Conversions between record lists and arrays keep every value in its field",
    "Converting a generator's list of records to a structured array and back, with or without a mapping of several named variables to one vector field, returns every record with every value under its own name and in its own order, for all supported scalar and vector types; arrays are converted back and forth likewise, and fields that are not mapped pass through unchanged. "
    "Standard-style generators driven by libEnsemble therefore get back exactly the records they suggested, completed with the results for that record, each once.",
    ["inputs", "schedules"],
    "all record shapes, value types, mappings (also partial, single-variable and overlapping names), batch sizes and result orders",
    "Tests convert a few fixed records.",
    [L + "utils/misc.py", L + "utils/runners.py", L + "generators.py", L + "sim_funcs/gest_api_wrapper.py"],
    [("conversion functions", L + "utils/misc.py"), ("suggest/ingest loop", L + "utils/runners.py")],
    ["returned records and arrays", "records ingested by the generator in a run"],
)
prop(
    "C21", "Specifications are checked before any work and mean the same in every form",
    "Unknown options, wrong types, impossible combinations, uncallable functions, missing input files, H0 with unfinished points and stop values on unknown fields are rejected with an error before any user function is called. "
    "Valid specifications are accepted, and have the same effect whether given as objects, as dictionaries, through a file, through decorators, or through the Ensemble class, with documented defaults and derived settings filled in and user-given values preserved.",
    ["inputs", "configurations"],
    "all valid field/value combinations of the specifications and their corruption in one or more places, in every input form",
    "Tests try a handful of valid and invalid specifications.",
    [L + "specs.py", L + "utils/validators.py", L + "utils/specs_checkers.py", L + "utils/pydantic_bindings.py", L + "ensemble.py", L + "tools/parse_args.py"],
    [("models and validators", L + "specs.py, " + L + "utils/validators.py"), ("file and command line input", L + "ensemble.py, " + L + "tools/parse_args.py")],
    ["accepted/rejected and the resulting specification values", "calls made to user functions"],
)
prop(
    "C22", "A previous history given as H0 is preserved and continued",
    "When a history is given as H0, its rows come first in the new history with all their values unchanged and in order, none of its finished points is evaluated again, missing bookkeeping fields are filled in as documented, and new points get the sim_ids that follow. "
    "For a generator and simulator that depend only on the history, splitting a run in two with H0 gives the same points and values as one longer run.",
    ["histories", "inputs", "crash_points"],
    "all H0 with any subset of bookkeeping and user fields, from complete runs stopped at any point, and all continuations",
    "Tests restart once from one fixed array.",
    [L + "history.py", L + "manager.py", L + "utils/specs_checkers.py"],
    [("prepend of H0", L + "history.py"), ("H0 checks", L + "utils/specs_checkers.py")],
    ["H returned by the continued run"],
)
prop(
    "C23", "The way workers are run does not change the result",
    "For deterministic user functions, a run gives the same points with the same values (up to the order in which they were produced) and the same exit flag whether workers are threads, forked processes, TCP clients or MPI ranks, and whether the generator runs on a worker or on the manager. "
    "With one worker, repeated runs give identical user data row by row.",
    ["configurations", "schedules", "inputs"],
    "all workloads (generator kinds, batch sizes, dtypes, allocation functions) over all communication modes and worker counts",
    "Tests run each mode separately and never compare the results of one with another.",
    [L + "libE.py", L + "comms", L + "manager.py", L + "worker.py"],
    [("transport set-up", L + "libE.py"), ("generator on manager", L + "manager.py")],
    ["H, persis_info and exit flag returned in each mode"],
)
prop(
    "C24", "APOSMM's incremental bookkeeping equals its definition at every step",
    "After any sequence of evaluated points, for every point the recorded distance to, and index of, the nearest evaluated better point (among all points and among sample points only) is what a direct computation over all points gives, and local optimisation runs are started only from points that satisfy the stated criteria. "
    "Each local run receives the result of exactly the point it asked for, every point it requests lies within the bounds and is recorded in its run, and the number of concurrently active runs never exceeds the limit.",
    ["histories", "inputs", "schedules"],
    "all point sets (ties, duplicates, boundary points), return orders and batch sizes, and run histories",
    "Tests run APOSMM on a few objective functions and check the final minima.",
    [L + "gen_funcs/persistent_aposmm.py", L + "gen_funcs/aposmm_localopt_support.py", L + "gen_classes/aposmm.py"],
    [("distance update", L + "gen_funcs/persistent_aposmm.py: update_history_dist"), ("start decision", L + "gen_funcs/persistent_aposmm.py"), ("local optimiser exchange", L + "gen_funcs/aposmm_localopt_support.py")],
    ["history kept by the generator after every update", "points requested by each run"],
)
prop(
    "C25", "Every calculation and every log message is accounted for in the output files",
    "For every simulation and generator call that ends, normally or with an error, the statistics file gets exactly one line with the right worker, points or generator number, kind, status and times that enclose the call. "
    "Every message logged on a worker at or above the set level appears once in the manager's log, labelled with its worker and unaltered, messages of one worker stay in order, and nothing is written when log files are disabled.",
    ["schedules", "inputs", "configurations"],
    "all run histories with all statuses, message texts and levels, worker counts, communication modes and format options",
    "Tests only check that the files exist.",
    [L + "comms/logs.py", L + "worker.py", L + "logger.py", L + "utils/timer.py"],
    [("log forwarding and filters", L + "comms/logs.py"), ("statistics line", L + "worker.py")],
    ["libE_stats.txt and ensemble.log after the run"],
)
prop(
    "C26", "persis_info travels faithfully between manager and user functions",
    "Each user function call gets exactly the persis_info entry that its work order carries: with the allocation helpers its own worker's entry as it was last left. The entry it returns is merged into that worker's entry (an empty one, or none, leaves it as it was), and this is what the next call on that worker and finally the caller get; entries of other workers, and entries not belonging to a worker, are untouched by it. "
    "Entries set by the allocation function persist from call to call and are returned at the end.",
    ["histories", "schedules", "inputs"],
    "all contents and update sequences, worker counts, response orders, kinds of user function, and communication modes",
    "Tests look at a few entries after fixed runs.",
    [L + "manager.py", L + "worker.py", L + "utils/runners.py", L + "tools/tools.py"],
    [("exchange with each work order", L + "manager.py, " + L + "worker.py")],
    ["persis_info seen by every call and returned by libE()"],
)
prop(
    "C27", "Bundled generators respect bounds and batch sizes and are reproducible",
    "The bundled sampling generators produce exactly the requested number of points, all inside the given bounds and with the documented resource, priority and component fields, as a function of the random stream alone: equal streams give equal points, and the stream's state is carried on so that points do not repeat. "
    "Latin-hypercube samples have one point per stratum in every dimension, finite-difference generators request exactly the points of their stencil, and the analytic gradients of the bundled test functions agree with their values.",
    ["inputs", "histories"],
    "all dimensions, bounds, batch sizes, seeds and call sequences",
    "Tests run each generator with one setting.",
    [L + "gen_funcs/sampling.py", L + "gen_funcs/persistent_sampling.py", L + "gen_funcs/persistent_sampling_var_resources.py", L + "gen_classes/sampling.py", L + "sim_funcs", L + "tools/tools.py"],
    [("sampling", L + "gen_funcs/sampling.py, " + L + "gen_funcs/persistent_sampling.py"), ("test functions", L + "sim_funcs/*.py")],
    ["points returned or sent by the generators"],
)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
