#!/usr/bin/env python3
"""The properties, in one place.  Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], technique=technique, note=note, na=na))

SIMT = "deterministic simulation: seeded search over thread schedules and faults, "
prop("C01", "Every pool task runs exactly once and its outcome reaches its own future",
 "Whatever the number of workers and of threads submitting at once, a task accepted by the thread pool is executed exactly once, and the future returned for it becomes ready with that task's own value, or with the exception that task threw. Whoever obtains the result also sees every memory effect of the task. The pool's own bookkeeping is free of data races, and a failing task affects no other task.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of workers and submitters, all histories of submissions (values, exceptions, nested submissions), spurious wake-ups",
 "The unit tests submit a few tasks from one thread under whatever schedule the machine produces; they cannot choose the interleavings in which a task is taken twice, lost, or its result attributed to another task.",
 ["src/core_thread_pool.hpp"], [["queue under one mutex and condition variable", "src/core_thread_pool.hpp: enqueue_internal, next, complete"], ["promise per task", "src/core_thread_pool.hpp: enqueue"]],
 technique=SIMT + "ledger of every task checked against every future")
prop("C02", "A thread pool keeps its full capacity and always shuts down",
 "A running pool of N workers can always have N tasks in progress at once, after any history of submissions, so that N tasks that wait for each other complete. Stopping, restarting (with any worker count) and destroying a pool return after a bounded number of steps, whatever each worker is doing at that moment; every task accepted before has been executed by then, and no worker thread is left behind. What is submitted to a stopped pool is executed after the next restart.",
 ["schedules", "histories", "fault_sequences"], "all phases of all workers at the moment of stop, restart and destruction; all sequences of these operations",
 "A lost wake-up needs the stop to fall between a worker's test and its wait; the tests reach it only by luck and would merely hang.",
 ["src/core_thread_pool.hpp"], [["stop flag and broadcast", "src/core_thread_pool.hpp: stop_all"], ["worker loop drains the queue before leaving", "src/core_thread_pool.hpp: next"]],
 technique=SIMT + "progress within a bounded number of steps, drain checked at every stop")
prop("C03", "Parallel tree traversals equal the serial traversal",
 "Mapping a function over a tree (or applying it to tuples of tree values) on a thread pool, on asynchronous threads or deferred gives the same tree shape with the same value at every leaf as the serial traversal, and calls the function once per leaf. If the function fails for some leaf, the same failure is reported to the caller. This holds under every schedule, with several traversals sharing one pool, and free of data races.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of the leaf tasks; all trees; failing leaf functions; concurrent traversals on one pool",
 "The tests compare one small tree under the schedule that happens; they run no failing leaf and no concurrent traversals.",
 ["src/core_tree.hpp", "src/core_thread_pool.hpp"], [["tree of futures, then a tree of their results", "src/core_tree.hpp: map, apply"]],
 technique=SIMT + "serial traversal of the same tree as the oracle, race detector")
prop("C04", "Parallel array evaluation equals serial evaluation",
 "Evaluating a lazy array on any number of threads gives the array that serial evaluation gives, element for element, for every shape, including arrays with fewer rows than threads. Each element is evaluated exactly once, no element outside the array is touched, no two threads write the same memory, and no thread is left behind.",
 ["schedules", "inputs"], "all interleavings of the evaluating threads; all array shapes and thread counts",
 "The tests evaluate one array shape that divides evenly under one schedule.",
 ["src/app_parallel.hpp", "src/core_ndarray.hpp"], [["disjoint partition of the leading axis", "src/core_ndarray.hpp: partition_shape"], ["one thread per part, joined before the result is shared", "src/app_parallel.hpp: evaluate_on"]],
 technique=SIMT + "serial evaluation as the oracle, race detector")
prop("C12", "Arrays, trees and lists can be shared by threads and never change",
 "A memory-backed array, a tree or a list, and anything made lazily from one, can be used by any number of threads at once: every operation on it (mapping, arithmetic, selection, extension, concatenation, replacement, reduction, reshaping, iteration, refinement, update, lookup) gives the result it gives on one thread, free of data races and of use after release. No operation changes a value that was there before, also not one that has run out of memory in the middle, and the next operation on the same values succeeds.",
 ["schedules", "inputs", "histories", "fault_sequences"], "all interleavings of threads that read the same values, derive new ones from them and release them; all sequences of operations; allocations failing anywhere",
 "The tests use every value on one thread and no allocation fails; a value that caches, reuses or steals something is right in all of them.",
 ["src/core_ndarray.hpp", "src/core_ndarray_ops.hpp", "src/core_tree.hpp", "src/core_linked_list.hpp", "src/core_sequence.hpp"], [["buffers are owned by shared pointers and not written after construction", "src/core_ndarray.hpp: shared_provider_t, unique_provider_t::shared"], ["trees share unchanged subtrees", "src/core_tree.hpp: update, bifurcate_if"]],
 technique=SIMT + "failing allocations; an independent model of every operation as the oracle, race and lifetime detector")
prop("C07", "Messages arrive exactly once, intact, and in order per channel",
 "Every message sent through the message-passing layer is received exactly once, with the bytes that were sent, by the destination and on the communicator and tag it was sent with; messages between the same pair of ranks on the same communicator and tag arrive in the order sent. A receive that accepts any source or tag returns one whole message, never a mixture of two, whichever messages arrive between the probe and the receive. If every message sent is asked for, all receives complete.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of the ranks and all delivery orders and delays an MPI library may produce; any number of messages, tags, sizes and communicators",
 "No test runs more than one rank; the repository has no test of the message-passing layer at all.",
 ["src/core_mpi.hpp"], [["probe, size, receive", "src/core_mpi.hpp: recv, irecv"]],
 technique=SIMT + "simulated network with delay, reordering, eager and rendezvous transfer; ledger of every message")
prop("C08", "Requests own their buffer until the operation has ended",
 "A non-blocking operation reads or writes only memory that its request object keeps alive at an unchanged place until the operation has completed, however the request is moved, stored, waited for, queried, overwritten or dropped. Dropping, overwriting or cancelling a pending request cancels it or lets it complete, never corrupts another message, and leaves no operation behind; a completed, cancelled or moved-from request is null.",
 ["schedules", "histories", "fault_sequences"], "all lifetimes of request objects against all timings of the transfer, including cancellation racing with delivery",
 "Small messages complete at once, so buffers that move or die while a transfer is pending stay unnoticed unless the timing is controlled.",
 ["src/core_mpi.hpp"], [["request owns the buffer; destructor and move assignment cancel", "src/core_mpi.hpp: Request"]],
 technique=SIMT + "simulated network touches the buffers at a time of its choice under a lifetime and race detector")
prop("C09", "Collective operations deliver by rank on every rank",
 "Broadcast, scatter, all-to-all and all-gather (also with a different number of items per rank, including none) give every rank exactly the items meant for it, attributed to the right rank, for every rank count and root; a barrier is passed by no rank before all have reached it. Messages in flight on the same or another communicator do not disturb them, and a buffer of the wrong length is refused rather than read past its end.",
 ["schedules", "inputs", "histories"], "all orders in which ranks enter and leave; all rank counts, roots, item types and per-rank lengths",
 "The repository has no test of the message-passing layer, and a single rank cannot confuse ranks.",
 ["src/core_mpi.hpp"], [["counts and displacements in bytes", "src/core_mpi.hpp: scatter, all_gather, all_to_all"]],
 technique=SIMT + "model of each collective indexed by rank")
prop("C10", "Communicators are owned: freed exactly once, never shared, never lost",
 "Through every sequence of copying, moving, assigning (to itself too), storing and closing, each communicator that was opened or duplicated is freed exactly once and before the session ends; a copy is a separate communication context whose messages never mix with those of the original. Null communicators report size zero and rank minus one, and closing or copying them is harmless.",
 ["histories", "schedules"], "all sequences of ownership operations on all ranks, with traffic between them",
 "The repository has no test of the message-passing layer; a leaked or doubly freed handle shows only in the library's own tables.",
 ["src/core_mpi.hpp"], [["move-only ownership transfer, duplicate on copy", "src/core_mpi.hpp: Communicator"]],
 technique=SIMT + "ledger of every communicator handle in the simulated library")
prop("C11", "A domain divided into blocks is covered exactly and reassembles",
 "Dividing a domain over any number of ranks gives as many blocks as ranks, and every element belongs to exactly one of them; more blocks than fit are refused. Blocks evaluated by separate ranks and exchanged by messages, or written by separate processes in any order into one file, make up exactly the array evaluated as a whole.",
 ["schedules", "inputs", "fault_sequences"], "all domain shapes and rank counts; all orders in which ranks compute, send and write; short and interrupted transfers",
 "The tests divide one domain and never put the parts together again.",
 ["src/app_parallel.hpp", "src/app_serialize.hpp", "src/core_mpi.hpp", "src/core_hdf5.hpp"], [["blocks from prime factors of the rank count", "src/app_parallel.hpp: propose_block_decomposition, create_access_pattern_array"], ["selection of the block in the file", "src/app_serialize.hpp: make_hdf5_hyperslab"]],
 technique=SIMT + "simulated ranks and processes assemble the array, compared with the whole")
RUNF = ["src/app_schedule.hpp", "src/app_serialize.hpp", "src/app_serialize_tree.hpp", "src/subprog_binary.cpp", "src/subprog_binary_io.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp"]
prop("C05", "Results do not depend on the thread schedule or the number of threads",
 "A simulation run with a given configuration produces the same outputs, bit for bit, with any number of worker threads and under every interleaving of them, and the same as without threads. This includes runs in which time steps fail and are retried, and the run's success or failure. No two threads access the same data without synchronisation.",
 ["schedules", "configurations", "inputs"], "all interleavings of the worker threads, all thread counts, all configurations of the subprograms",
 "A run under the machine's own scheduler samples one interleaving; a summation order or shared buffer that depends on the schedule changes the last bits only rarely.",
 ["src/subprog_binary.cpp", "src/subprog_binary_scheme.cpp", "src/core_tree.hpp", "src/core_thread_pool.hpp", "src/subprog_cloud.cpp"], [["tree of blocks mapped on a pool", "src/subprog_binary_scheme.cpp: advance"], ["time step from the minimum over blocks", "src/subprog_binary_solver_data.cpp"]],
 technique=SIMT + "outputs compared bit for bit with the single-threaded run; race detector on the instrumented build")
prop("C06", "Mass in the binary simulation is fully accounted for",
 "At every recorded sample of a binary accretion run, the mass on the grid plus the mass accreted by each of the two bodies plus the mass ejected through the buffer equals the initial mass up to rounding (with no density floor, which adds mass by design), with any block layout including refinement jumps, any thread count and schedule. The balance survives time steps that fail and are repeated, kills and restarts from checkpoints.",
 ["schedules", "crash_points", "configurations", "fault_sequences"], "all configurations with fluxes that cancel at the domain's faces, all schedules, all points at which a step fails or the process is killed",
 "No test advances the binary solution; a flux applied on one side of a face only, or a failed step's accretion counted twice, needs a run with that block layout or that failure.",
 ["src/subprog_binary_scheme.cpp", "src/subprog_binary.cpp", "src/subprog_binary_diagnostics.cpp", "src/mesh_tree_operators.hpp"], [["same flux used on both sides of a face; fine faces correct the coarse side", "src/subprog_binary_scheme.cpp: flux correction, advance"], ["sink and buffer terms recorded with the step they belong to", "src/subprog_binary_scheme.cpp: source terms"]],
 technique=SIMT + "conservation law evaluated on every recorded sample, through kills, restarts and failing steps",
 note="Checked with an axisymmetric sound speed and no density floor, the configurations in which the code's own scheme conserves mass exactly.")
prop("D01", "What is written to a file is what a later process reads",
 "Every value written through the file layer (numbers, strings, lists, arrays of any rank, records, trees, configurations, schedules, parts of arrays) is read back by a later process equal to what was written, whatever short or interrupted transfers the operating system makes. Overwriting with a value of the same type and shape replaces it, another type or shape is refused and leaves the old value, and a group lists exactly what was put into it.",
 ["inputs", "histories", "fault_sequences"], "all supported types, shapes (empty ones too) and values; all sequences of writes, overwrites and partial writes; all patterns of short and interrupted transfers",
 "The tests write and read a few fixed values within one process and never meet a short transfer, an empty value or a second process.",
 ["src/core_hdf5.hpp", "src/app_serialize.hpp", "src/app_serialize_tree.hpp"], [["datatype and dataspace derived from the value", "src/core_hdf5.hpp: make_datatype_for, make_dataspace_for"], ["one group per tree level", "src/app_serialize_tree.hpp: write, read"]],
 technique="deterministic simulation: seeded histories of writes on a simulated disk with transfer faults, read by a second simulated process and compared with a model")
prop("D02", "A run killed anywhere and restarted ends where the undisturbed run ends",
 "If a simulation is killed at any moment, any number of times, and each time restarted from a completed checkpoint (the newest, or an older one), it goes on to produce the outputs the undisturbed run produces, bit for bit and under the same names. Nothing needs to be repeated on the command line, and the number of outputs written before the kill makes no difference. Given an earlier end at the last restart, it ends as an undisturbed run with that end.",
 ["crash_points", "histories", "configurations"], "all kill points (also inside a file write), all sequences of kills and restarts, all checkpoints, all subprograms that can restart",
 "The repository has no restart test; what a checkpoint forgets shows only when the run goes on from it.",
 RUNF, [["whole solution, schedule, configuration and time series in each checkpoint", "src/subprog_binary_io.cpp, src/subprog_sedov.cpp, src/subprog_cloud.cpp, src/subprog_boilerplate.cpp: write_checkpoint"], ["state rebuilt from the checkpoint", "src/subprog_*.cpp: create_solution, create_schedule"]],
 technique="deterministic simulation: seeded kills at every file operation with torn writes; outputs compared bit for bit with the undisturbed run")
prop("D03", "A kill never harms an output that was completed",
 "Once an output file has been completed, no later kill makes it unreadable or changes it. A run restarted from a checkpoint does not open for writing any output older than that checkpoint, nor the checkpoint itself, and continues the numbering without gaps.",
 ["crash_points", "histories"], "all kill points (also inside a file write), all sequences of kills and restarts",
 "No test kills a process; the damage would be done by the restarted run, on files the test would not look at.",
 RUNF, [["numbered file names from the schedule's counters", "src/app_schedule.hpp, src/app_filesystem.hpp"], ["counters stored in the checkpoint", "src/app_serialize.hpp: write_schedule, read_schedule"]],
 technique="deterministic simulation: seeded kills at every file operation with torn writes; every completed file compared after every kill")
prop("D04", "A failing disk is reported; success means every output is complete",
 "If creating, writing, extending or closing an output fails (disk full, I/O error, no permission, no descriptors), the run ends with a visible failure rather than success; a run that reports success has written every output completely. Outputs completed or announced before the fault stay intact, short or interrupted transfers alone never cause a failure, and once the disk works again the run can be taken up and completes. The same holds for a single file written through the file layer: when its writes, its growth or its closing fail, the writer gets an error at the latest when it closes the file.",
 ["fault_sequences", "configurations"], "all points at which any class of file operation can fail, once or for ever, all error kinds, all patterns of short and interrupted transfers",
 "Tests run on a disk that works.",
 ["src/core_hdf5.hpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_binary_io.cpp", "src/subprog_amrsand.cpp", "src/subprog_boilerplate.cpp", "src/app_filesystem.hpp"], [["every library status checked", "src/core_hdf5.hpp: detail::check"], ["file closed before it is announced", "src/subprog_*.cpp: write_checkpoint, write_diagnostics"]],
 technique="deterministic simulation: seeded disk errors on the simulated file system; outputs compared bit for bit with the undisturbed run")
prop("D05", "A restart never silently uses incomplete data",
 "A restart from a checkpoint that is missing, cut off, not a checkpoint, lacking an item, or that cannot be read because of an I/O error fails visibly and leaves every existing file as it was; a restart that reports success has produced what a restart from the intact checkpoint produces. No such input crashes or hangs the program. Below that, reading a value through the file layer yields the value that was written or an error.",
 ["inputs", "fault_sequences", "crash_points"], "all truncations, missing items, foreign files, checkpoints torn by a kill, and read errors at all points of the restart",
 "Tests read files they have just written.",
 ["src/core_hdf5.hpp", "src/app_serialize.hpp", "src/app_serialize_tree.hpp", "src/subprog_binary_io.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp"], [["missing items and failed reads throw", "src/core_hdf5.hpp: detail::check, Location::open_*"]],
 technique="deterministic simulation: seeded corruption of checkpoints and read errors on the simulated disk; outcome compared with the intact restart")
prop("D06", "Outputs appear when they are due, exactly once, through restarts",
 "Each kind of output is produced at the start of a fresh run and then once per interval of simulated time, at the first step at which the interval has passed, numbered consecutively; the time series has one sample per due time. A restart continues the schedule where the checkpoint left it, neither repeating nor skipping an output, also when intervals are changed on restart.",
 ["histories", "configurations"], "all intervals against all step sizes, all sequences of restarts with changed intervals and final times, from any checkpoint",
 "The tests of the schedule tick it a few times; they do not follow a run, its restarts and the files on disk.",
 RUNF, [["tasks marked due when their interval has passed", "src/app_schedule.hpp: mark_tasks"], ["counters written and read with each checkpoint", "src/app_serialize.hpp"]],
 technique="deterministic simulation: whole runs with seeded histories of restarts against an executable model of the schedule")
prop("D07", "The configuration in effect is the one given, over all restarts",
 "An option has the value given on the command line, else the value recorded in the checkpoint restarted from, else its default, through any sequence of restarts and kills; every output that records its configuration records exactly that one, and outputs go to the directory it names. An option that does not exist, that is given twice, or whose text is no number, or one out of range, where a number is needed, is refused before any file is touched.",
 ["histories", "configurations", "crash_points"], "all sequences of restarts with any options changed, all kill points",
 "The tests merge configurations in memory; a value lost on its way through a checkpoint needs a second generation to show.",
 ["src/app_config.hpp", "src/app_serialize.hpp", "src/subprog_binary.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp"], [["template, then checkpoint, then command line", "src/subprog_*.cpp: create_run_config"]],
 technique="deterministic simulation: generations of whole runs with seeded options and kills against a model of the merge")
prop("E01", "The wall clock decides nothing but reported speed",
 "Whatever the wall clock does during a run (jumps ahead, steps back, stands still), the run completes and its outputs are bit for bit those of a run with a steady clock.",
 ["fault_sequences", "schedules", "configurations"], "all clock behaviours at all clock readings, together with all schedules",
 "Tests cannot make the system clock jump in the middle of a step.",
 ["src/app_performance.hpp", "src/subprog_binary.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_amrsand.cpp", "src/subprog_boilerplate.cpp"], [["clock read only for messages", "src/app_performance.hpp: time_execution"]],
 technique=SIMT + "virtual clock with jumps, backward steps and stalls; outputs compared bit for bit")
prop("E02", "A time step that fails leaves no trace and is repeated as a whole",
 "If a binary run's time step fails part way (memory runs out in any task, or the state becomes unphysical), the failure is reported once and the step is repeated from the state before it, with nothing of the failed attempt remaining: two runs in which the same step fails at different moments, under different schedules and thread counts, continue identically. A failure that cannot be handled ends the run visibly and never hangs it or corrupts an announced output.",
 ["fault_sequences", "schedules"], "all allocations at which memory can run out, all tasks and schedules in which it is noticed",
 "The failure has to hit one particular allocation on one particular thread.",
 ["src/subprog_binary_scheme.cpp", "src/subprog_binary.cpp", "src/core_thread_pool.hpp", "src/core_tree.hpp"], [["failed attempt discarded, retried in safe mode", "src/subprog_binary_scheme.cpp: next_solution"]],
 technique=SIMT + "seeded allocation failures; runs that fail in the same step compared bit for bit")
prop("E03", "What a run holds does not grow with its length",
 "Threads, open files, HDF5 objects and memory held by a running program depend on its configuration, not on how many steps it has taken or outputs it has written (the recorded time series excepted): a long run opens no more files at once than a short one, succeeds with no more descriptors, and holds as much memory late in the run as early in it, under every schedule.",
 ["histories", "schedules", "fault_sequences"], "all run lengths and output cadences, all schedules, and any descriptor limit the short run lives with",
 "Tests run no program and never count what is still held; a leak only hurts after days.",
 ["src/core_hdf5.hpp", "src/core_thread_pool.hpp", "src/app_parallel.hpp", "src/subprog_binary.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp", "src/subprog_amrsand.cpp"], [["identifiers closed by their owners", "src/core_hdf5.hpp: Identifier classes"]],
 technique=SIMT + "descriptor limits; live blocks, bytes, threads and files of long runs compared with those of short ones")
prop("E04", "A run that cannot get memory or threads says so and can be taken up again",
 "If memory or threads run out at any moment of any run, fresh or restarted, once, for a while or for good, the run either ends with a visible failure or its outputs are complete and, unless it announced that it repeated a time step, those of the undisturbed run. It never hangs, outputs completed before are intact, and once resources are there again the run can be taken up and ends where the undisturbed run ends.",
 ["fault_sequences", "schedules", "configurations", "histories"], "all programs, every allocation and every thread creation of a run or a restart failing once, several times in a row or from then on, all schedules",
 "The tests run no program, and no test makes an allocation or a thread creation fail.",
 ["src/core_thread_pool.hpp", "src/app_parallel.hpp", "src/core_tree.hpp", "src/core_hdf5.hpp", "src/app_main.cpp", "src/subprog_binary.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp", "src/subprog_amrsand.cpp", "src/subprog_partdom.cpp"], [["failures of tasks travel through their futures", "src/core_thread_pool.hpp: enqueue"]],
 technique=SIMT + "failing allocations and thread creations; outputs and recovery compared with the undisturbed run")
prop("D08", "A directory asked for exists afterwards, or an error is raised",
 "Asking for an output directory creates exactly that directory and its missing parents, for relative and absolute paths, and is harmless if it exists already or another process creates it at the same moment. If it cannot be created, an error is raised rather than the run going on without it; nothing that existed before is changed.",
 ["inputs", "fault_sequences", "schedules"], "all paths (relative, absolute, with dots, links, repeated and trailing separators) in all existing directory trees, all failing system calls, all interleavings with others creating the same directories",
 "The tests create one relative directory on a disk that works.",
 ["src/app_filesystem.hpp"], [["each prefix created in turn, the result checked", "src/app_filesystem.hpp: require_dir"]],
 technique="deterministic simulation: seeded directory trees, system call failures and concurrent creators in a jail, compared with a model")
prop("D09", "Recursive removal removes that directory and nothing else",
 "Removing a directory recursively either removes it with all its contents and reports success, or reports failure; it never removes or changes anything outside the named directory, in particular nothing that a symbolic link inside it points to. This holds whatever order the entries are listed in, whichever system call fails, and with another process adding or removing entries meanwhile.",
 ["inputs", "fault_sequences", "schedules"], "all directory trees with files, hidden files, directories and links; all failing system calls; all listing orders; concurrent additions and removals",
 "The tests remove one directory of ordinary files.",
 ["src/app_filesystem.hpp"], [["entries classified without following links", "src/app_filesystem.hpp: remove_recurse"]],
 technique="deterministic simulation: seeded directory trees, system call failures and a concurrent actor in a jail; everything outside compared before and after")

prop("D10", "A fresh run does not depend on what is in its output directory",
 "A run started without a checkpoint writes the same outputs, bit for bit, whatever earlier runs (finished or killed, of the same or another configuration or program) or other files left in its output directory, also under the names of its own outputs; and it leaves every file that is not one of its outputs as it was.",
 ["histories", "fault_sequences", "configurations"], "all histories of earlier runs and kills in the same directory, all contents of files already there",
 "Tests run no program twice; which leftovers matter depends on both configurations and on where the earlier run was killed.",
 ["src/core_hdf5.hpp", "src/app_filesystem.hpp", "src/subprog_binary.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp", "src/subprog_amrsand.cpp", "src/subprog_partdom.cpp"], [["files created anew", "src/core_hdf5.hpp: File(filename, \"w\")"], ["series started anew", "src/subprog_sedov.cpp: prepare_filesystem"]],
 technique=SIMT + "histories of killed and finished runs and junk files; outputs compared bit for bit with those in an empty directory")

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, na=reason)
PURE = "A pure function of its arguments: no thread, clock, message, disk access, randomness or fault takes part, so there is no schedule or fault sequence for a simulator to choose. "
na("N01", "Riemann fluxes are consistent and respect symmetry",
 "For every pair of physical states the numerical flux of a state with itself is its physical flux, mirrored states give mirrored fluxes, and the flux of supersonic flow is that of the upwind side.",
 ["inputs"], "all pairs of physical states in all three equation systems", "The tests evaluate a few states.", ["src/physics_euler.hpp", "src/physics_iso2d.hpp", "src/physics_srhd.hpp"], [["HLLE and HLLC solvers", "src/physics_*.hpp: riemann_hlle, riemann_hllc"]],
 PURE + "The whole-program runs use it, but nothing they vary bears on it.")
na("N02", "Conserved and primitive states convert back and forth",
 "For every physical state the primitive state recovered from its conserved state is that state up to rounding, and an unphysical conserved state is refused.",
 ["inputs"], "all physical and unphysical states", "The tests convert a few states.", ["src/physics_euler.hpp", "src/physics_iso2d.hpp", "src/physics_srhd.hpp"], [["recovery, iterative in the relativistic case", "src/physics_*.hpp: recover_primitive"]], PURE)
na("N03", "Two-body states and orbital elements convert back and forth",
 "For every bound orbit the orbital elements computed from the bodies' positions and velocities reproduce those positions and velocities up to rounding, at every phase, and energy and angular momentum do not vary along the orbit.",
 ["inputs"], "all bound orbits and phases", "The tests convert a few orbits.", ["src/model_two_body.hpp"], [["closed form and Newton iteration", "src/model_two_body.hpp"]], PURE)
na("N04", "Lazy array operations equal their elementwise definition",
 "Every composition of array operations (map, zip, select, replace, concatenate, differences, shifts, reductions) yields at each index the value its definition gives, never reading outside its operands.",
 ["inputs", "programs"], "all compositions, shapes and values", "The tests compose a few operations on small shapes.", ["src/core_ndarray.hpp", "src/core_ndarray_ops.hpp"], [["index mapping of each provider", "src/core_ndarray.hpp"]], PURE + "The parallel evaluation of such arrays does depend on schedules and is decided as C04.")
na("N05", "Moving data between mesh levels conserves what it should",
 "Prolonging cell data to finer blocks and restricting it again preserves its sum, and neighbouring blocks of different level are filled consistently across block faces.",
 ["inputs"], "all block data and neighbour arrangements", "The tests use constant or linear data.", ["src/mesh_prolong_restrict.hpp", "src/mesh_tree_operators.hpp"], [["prolongation and restriction stencils", "src/mesh_prolong_restrict.hpp"]], PURE + "Its consequence for a whole run, the mass balance over refinement jumps, is decided as C06.")
na("N06", "Exact and dimensional arithmetic obey their laws",
 "Rational arithmetic is exact within range and kept in lowest terms, and dimensional arithmetic combines units as physics does.",
 ["inputs", "programs"], "all operands and expressions", "The tests check examples.", ["src/core_rational.hpp", "src/core_dimensional.hpp"], [["normalisation and template arithmetic", "src/core_rational.hpp"]], PURE)
na("N07", "Tree indexes, neighbours and shapes are consistent",
 "The index of every leaf leads to that leaf, neighbours of neighbours lead back, and refining a tree keeps every value that was not refined.",
 ["inputs"], "all trees and indexes", "The tests use small trees.", ["src/core_tree.hpp"], [["orthant arithmetic", "src/core_tree.hpp: tree_index_t"]], PURE + "Parallel traversal is decided as C03, storage of trees as D01.")
na("N08", "Text given for an option is parsed as a value of its type or refused",
 "Every text given for an option becomes the value it denotes in the option's type, and any other text is refused.",
 ["inputs"], "all texts for all option types", "The tests parse a few texts.", ["src/app_config.hpp"], [["conversion by option type", "src/app_config.hpp: set"]], PURE + "How options survive restarts is decided as D07.")

NOTE = "Seeded search: a pass means no violation on the runs explored, not a proof. "
def main():
    P.sort(key=lambda p: ("N" in p["id"], p["id"]))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[],
             hooks=dict(guard="none", enable="No hooks: the checks compile /repo's sources unmodified and take over the thread library, the clock, the MPI library, file system calls and memory accesses at link time.", source_commits=[]))
    for p in P:
        if p["na"]: m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
        assert p["id"] in PLAN, p["id"]
        m["checks"].append(dict(property=p["id"], quick_cmd=f"bin/check {p['id']} --tier quick", thorough_cmd=f"bin/check {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=PLAN[p["id"]].get("level", "exploration"), level_note=NOTE + (p["note"] or "")))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
    missing = [k for k in PLAN if k not in {p["id"] for p in P if not p["na"]}]
    if missing: print("in plan but not listed:", missing)
if __name__ == "__main__": main()
