"""Which simulated scenarios decide which property, and for how long."""
SCHED = "the thread scheduler (every lock, wait, thread start, atomic and, between them, plain memory accesses are scheduling points chosen by the seed)"
CLOCK = "the clock (virtual time)"
MPI_STUB = ["the MPI library (ranks are simulated threads, the network is one more; eager/rendezvous switch, wildcard matching, delivery order across channels, payload delay and the outcome of cancellation are chosen by the seed)", SCHED, CLOCK]
CONC_RULE = "a run counts as non-trivial when its schedule switched threads at least twice; distinct = distinct hashes of (recorded workload, schedule and fault choices, event history)"

APP_RULE = "a run counts as non-trivial when the fault or disturbance it drew took effect and its outcome was compared; distinct = distinct hashes of (recorded workload, schedule and fault choices, outcomes of all simulated processes)"
PROG = ["the whole program: app_main.cpp and all subprograms, unmodified, run as simulated processes", "the HDF5 library", "libstdc++ threads, futures and condition variables (on simulated mutexes and waits)"]
APP_STUB = ["the disk: file system calls pass through the simulator, which kills, tears, fails, shortens or interrupts them as the seed says, inside a jail directory per simulated process", SCHED.replace("plain memory accesses are", "(instrumented build) plain memory accesses are"), CLOCK, "memory allocation (operator new fails where the seed says)", "MPI (initialised, one rank)"]

def sc(exe, name, quick, thorough=None, **params):
    d = dict(exe=exe, name=name, quick=quick, thorough=thorough or quick * 15)
    if params: d["params"] = params
    return d

PLAN = {
 "C01": dict(scenarios=[sc("conc", "pool_exactly_once", 35)], rule=CONC_RULE, real=["core_thread_pool.hpp", "libstdc++ futures, promises, condition variables (on simulated mutexes and waits)"], stub=[SCHED, CLOCK]),
 "C02": dict(scenarios=[sc("conc", "pool_lifecycle", 35)], rule=CONC_RULE, real=["core_thread_pool.hpp"], stub=[SCHED, CLOCK]),
 "C03": dict(scenarios=[sc("conc", "tree_map", 40)], rule=CONC_RULE, real=["core_tree.hpp", "core_thread_pool.hpp", "core_sequence.hpp"], stub=[SCHED, CLOCK]),
 "C12": dict(scenarios=[sc("conc", "shared_values", 25)], rule=CONC_RULE, real=["core_ndarray.hpp", "core_ndarray_ops.hpp", "core_tree.hpp", "core_linked_list.hpp", "core_sequence.hpp"], stub=[SCHED, CLOCK, "memory allocation (operator new fails where the seed says)"]),
 "C04": dict(scenarios=[sc("conc", "evaluate_on", 35)], rule=CONC_RULE, real=["app_parallel.hpp", "core_ndarray.hpp"], stub=[SCHED, CLOCK]),
 "C07": dict(scenarios=[sc("conc", "mpi_p2p", 35)], rule=CONC_RULE, real=["core_mpi.hpp"], stub=MPI_STUB),
 "C08": dict(scenarios=[sc("conc", "mpi_requests", 35)], rule=CONC_RULE, real=["core_mpi.hpp"], stub=MPI_STUB),
 "C09": dict(scenarios=[sc("conc", "mpi_collectives", 35)], rule=CONC_RULE, real=["core_mpi.hpp"], stub=MPI_STUB),
 "C10": dict(scenarios=[sc("conc", "mpi_communicators", 30)], rule=CONC_RULE, real=["core_mpi.hpp"], stub=MPI_STUB),
 "C05": dict(scenarios=[sc("app", "app_schedule", 22), sc("apprace", "app_schedule", 18, small=1)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "C06": dict(scenarios=[sc("app", "app_mass", 35)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "D02": dict(scenarios=[sc("app", "app_crash_restart", 40)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "D03": dict(scenarios=[sc("app", "app_outputs_intact", 35)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "D04": dict(scenarios=[sc("app", "app_disk_faults", 35), sc("app", "fs_write_faults", 12)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "D05": dict(scenarios=[sc("app", "app_bad_restart", 30), sc("app", "fs_read_faults", 10)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "D06": dict(scenarios=[sc("app", "app_cadence", 40)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "D07": dict(scenarios=[sc("app", "app_config", 35)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "E01": dict(scenarios=[sc("app", "app_clock", 30)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "E02": dict(scenarios=[sc("app", "app_failed_steps", 30), sc("apprace", "app_failed_steps", 12, small=1)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "E04": dict(scenarios=[sc("app", "app_exhaustion", 30)], rule=APP_RULE + "; here: when memory or thread creation did fail", real=PROG, stub=APP_STUB),
 "E03": dict(scenarios=[sc("app", "app_resources", 30)], rule=APP_RULE + "; here: when the long run opened files for writing at least ten times more often than the short one", real=PROG, stub=APP_STUB),
 "D10": dict(scenarios=[sc("app", "app_fresh_run", 25)], rule=APP_RULE, real=PROG, stub=APP_STUB),
 "C11": dict(scenarios=[sc("conc", "mpi_blocks", 15), sc("app", "fs_blocks", 15)], rule=CONC_RULE + "; for the file part: when the domain could be divided", real=["app_parallel.hpp", "app_serialize.hpp", "core_mpi.hpp", "core_hdf5.hpp", "the HDF5 library"], stub=MPI_STUB + APP_STUB[:1]),
 "D01": dict(scenarios=[sc("app", "fs_round_trip", 30)], rule=APP_RULE, real=["core_hdf5.hpp", "app_serialize.hpp", "app_serialize_tree.hpp", "the HDF5 library"], stub=APP_STUB[:1]),
 "D08": dict(scenarios=[sc("app", "fs_require_dir", 20)], rule=APP_RULE, real=["app_filesystem.hpp", "the kernel's file system, in a jail"], stub=APP_STUB[:1] + [SCHED]),
 "D09": dict(scenarios=[sc("app", "fs_remove", 20)], rule=APP_RULE, real=["app_filesystem.hpp", "the kernel's file system, in a jail"], stub=APP_STUB[:1]),
}
