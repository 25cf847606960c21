"""Which simulations decide which property."""
ENG_REAL = "src/dd.cpp, include/{dd.h,table.hpp,cache.hpp,common.h} (single-threaded build, tables sized by QDD_SIM)"
ENG_STUB = "operator new/delete (deterministic, fault-injecting arena), std::mt19937_64 state loaded by the simulator"
RULE_ENG = ("one run = one seeded history of engine operations; a run is counted once per distinct event-log hash (operations, node addresses, "
            "weights after every operation); every held state/gate is compared with the reference after every operation")


def eng(name, profile, quick, target="eng", **kw):
    return dict(name=name, target=target, cmd=["{B}/eng_sim", "--profile", str(profile)], quick=quick, real=ENG_REAL, stub=ENG_STUB, **kw)

MPI_REAL = "src/dd.cpp -DisMPI with include/*, one copy (own globals, own address range) per simulated rank; Boost.Serialization"
MPI_STUB = "boost::mpi transport (simulated: delivery order, eager/rendezvous sends, late capture of send buffers, collective skew), rank scheduler (coroutines), allocator, random draws"
RULE_MPI = ("one run = one seeded program executed by 1-8 simulated ranks under one seeded schedule of rank steps and message deliveries; a run is counted once "
            "per distinct event-log hash (every scheduling and transport event, node addresses and weights of every slice); every rank's slice is compared "
            "with the reference after every operation")


def mpi(name, profile, quick, **kw):
    return dict(name=name, target="mpi", cmd=["{B}/mpi_sim", "--profile", str(profile)], quick=quick, real=MPI_REAL, stub=MPI_STUB, **kw)

MT_REAL = "src/dd.cpp -DisMT, src/task.cpp, include/*; Boost.Fiber scheduling and synchronisation, oneTBB thread-local containers, pthreads (one runs at a time)"
MT_STUB = ("the operating system's scheduler (every instrumented memory access, lock and wait is a possible preemption decided by the seed), clocks, "
           "std::random_device, CPU pinning, operator new (deterministic addresses)")
RULE_MT = ("one run = one seeded program executed by 2-5 simulated threads under one seeded schedule; counted once per distinct event-log hash (operations, every thread switch and "
           "the access count at which it happened)")


def mt(name, profile, quick, **kw):
    return dict(name=name, target="mt", cmd=["{B}/mt_sim", "--profile", str(profile)], quick=quick, real=MT_REAL, stub=MT_STUB, tmax=90, **kw)

CONC_REAL = "include/wsq.hpp, src/epoch.cpp, include/epoch.hpp"
CONC_STUB = ("the operating system's scheduler (every instrumented memory access is a possible preemption decided by the seed), weakly ordered memory (relaxed loads may return "
             "older values), operator new/delete (freed blocks are quarantined; may fail)")


def conc(name, profile, quick, **kw):
    return dict(name=name, target="conc", cmd=["{B}/conc_sim", "--profile", str(profile)], quick=quick, real=CONC_REAL, stub=CONC_STUB, tmax=90, **kw)

PY_REAL = "qdd/*.py, src/python.cpp (pybind11 module built from src: st, -DisMT, -DisMPI), src/dd.cpp, qiskit-terra, numpy; every simulated node is a forked process of its own"
PY_STUB = "clock, time.time, os.urandom, std::random_device and /dev/urandom (all from the seed); engine calls and operator new (may fail); the worker pool is a stand-in that counts live pools (the real one is simulated for C10-C12), fibers run on the calling thread"
PY_STUB_MPI = "boost::mpi and mpi4py transport (one hub decides every delivery and which rank proceeds), " + PY_STUB
PY_STUB_THREADS = ("Python threads (real ones, of which one runs at a time: a switch is possible at every line or instruction of qdd/*.py and around every engine call), threading.Lock/RLock and "
                   "the primitives' thread pools (simulated), ") + PY_STUB
RULE_PY = ("one run = one seeded history of jobs (circuits, options, faults) in 1-2 simulated processes; counted once per distinct hash of everything the jobs returned; every result "
           "is compared with an independent dense simulation of the given circuits")


def py(name, profile, quick, **kw):
    return dict(dict(name=name, target="py", cmd=["{PY}", "{V}/sim/py/pysim.py", "--profile", str(profile), "--dir", "{B}"], prefix=2, quick=quick,
                     real=PY_REAL, stub=PY_STUB_MPI if profile == 15 else PY_STUB, tmax=80, audit=4), **kw)


CHECKS = {
    "C01": dict(rule=RULE_ENG, state_measure="distinct (rounded) reference state vectors reached",
                campaigns=[eng("engine-state", 1, 40000), eng("engine-wide", 6, 12000), eng("engine-state-mid", 1, 12000, "eng_mid")]),
    "C02": dict(rule=RULE_ENG, state_measure="distinct (rounded) reference state vectors reached",
                campaigns=[eng("engine-gate", 2, 70000), eng("engine-gate-mid", 2, 24000, "eng_mid")]),
    "C03": dict(rule=RULE_ENG, state_measure="distinct (rounded) reference state vectors reached",
                campaigns=[eng("engine-measure", 3, 80000), eng("engine-measure-mid", 3, 20000, "eng_mid")]),
    "C04": dict(rule=RULE_ENG, state_measure="distinct (rounded) reference state vectors reached",
                campaigns=[eng("engine-gc", 4, 44000), eng("engine-gc-mid", 4, 12000, "eng_mid")]),
    "C18": dict(rule=RULE_ENG, state_measure="distinct (rounded) reference state vectors reached",
                campaigns=[eng("engine-alloc", 5, 100000), eng("engine-alloc-mid", 5, 16000, "eng_mid")]),
    "C05": dict(rule=RULE_MPI, state_measure="distinct (rounded) global reference vectors reached", campaigns=[mpi("ranks-evolve", 1, 90000)]),
    "C06": dict(rule=RULE_MPI, state_measure="distinct (rounded) global reference vectors reached", campaigns=[mpi("ranks-measure", 2, 110000)]),
    "C07": dict(rule=RULE_MPI, state_measure="distinct (rounded) global reference vectors reached", campaigns=[mpi("ranks-progress", 3, 120000)]),
    "C08": dict(rule=RULE_MPI, state_measure="distinct (rounded) global reference vectors reached", campaigns=[mpi("ranks-transfer", 4, 130000)]),
    "C09": dict(rule="one run = one seeded history of gates, collections, saves, loads and file damage over 3 engines and 3 files; counted once per distinct event-log hash; "
                     "every held or loaded state is compared with the reference after every operation", state_measure="distinct (rounded) reference states of process 0",
                campaigns=[dict(name="disk", target="mpi", cmd=["{B}/disk_sim"], quick=140000, real=MPI_REAL + "; libstdc++ file streams",
                                stub="write/writev/read/open/fopen/close/fclose on the saved files (short, interrupted, failing, full disk, lost at close, crash in mid-write), allocator")]),
    "C10": dict(rule=RULE_MT + "; states are compared with the reference after every operation", state_measure="distinct (rounded) reference state vectors reached", campaigns=[mt("mt-evolve", 10, 18000)]),
    "C11": dict(rule=RULE_MT, state_measure="distinct (rounded) vectors built concurrently", campaigns=[mt("mt-insert", 11, 90000), mt("mt-evolve", 10, 6000)]),
    "C12": dict(rule=RULE_MT, state_measure="distinct (pool size, number of jobs) pairs", campaigns=[mt("mt-pool", 12, 80000)]),
    "C13": dict(rule="one run = one seeded program of pushes, pops and steals by an owner and 1-3 thieves under one seeded schedule; counted once per distinct event-log hash",
                state_measure="distinct final assignments of items to threads", campaigns=[conc("steal-queue", 13, 140000)]),
    "C14": dict(rule="one run = one seeded program of guards, reads, retirements, registrations and exits by 2-5 threads under one seeded schedule; counted once per distinct event-log hash",
                state_measure="distinct (retired, freed) histories", campaigns=[conc("epochs", 14, 90000)]),
    "C15": dict(rule=RULE_PY + "; every rank's results are compared with rank 0's, and with those of a second, differently scheduled run when the job is seeded",
                state_measure="distinct exact result distributions reached", campaigns=[py("ranks-backend", 15, 700)]),
    "C16": dict(rule=RULE_PY, state_measure="distinct exact result distributions reached", campaigns=[py("backend", 16, 4000)]),
    "C17": dict(rule=RULE_PY + "; the last job must equal the same job in a fresh process", state_measure="distinct exact result distributions reached", campaigns=[py("backend-failures", 17, 2800)]),
    "C19": dict(rule=RULE_PY + "; every seeded job is executed repeatedly, in different processes after different histories, and must give the same results",
                state_measure="distinct exact result distributions reached", campaigns=[py("backend-seeds", 19, 1600)]),
    "C20": dict(rule=RULE_PY, state_measure="distinct exact quantities reached", campaigns=[py("primitives", 20, 4000)]),
    "C21": dict(rule="one run = one seeded program of 1-4 clients (threads of one process) and the jobs they have in flight under one seeded schedule, plus a process in which the seeded "
                     "jobs run alone; counted once per distinct hash of everything the jobs returned and of the schedule; every result is compared with an independent dense simulation",
                state_measure="distinct exact quantities reached", campaigns=[py("clients", 21, 2000, stub=PY_STUB_THREADS)]),
}
