"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

DD = "src/dd.cpp"; DH = "include/dd.h"; CA = "include/cache.hpp"; TA = "include/table.hpp"; BK = "qdd/qdd_backend.py"
HOOK = "QDD_SIM: table sizes chosen at build time, so collisions, evictions and growth are frequent"

prop("C01", "State evolution is exact over every history of operations",
     "In one engine, whatever sequence of gates, state additions, tensor products, measurements and garbage collections came before, every state the caller still holds represents exactly (up to numerical tolerance) the vector that quantum mechanics prescribes for its own history. Operations on one state never change another. This holds for every number of qubits up to the supported maximum, also when single amplitudes are far below the numerical tolerance. Equal sub-states are stored once, so a diagram never holds two identical nodes.",
     ["histories", "inputs"], "all interleavings of operations over several live states, gate kinds, targets, controls, 1-99 qubits, cache collisions/evictions and table growth",
     "Tests run short fixed circuits on a fresh engine with huge tables; wrong cache hits, stale entries after a collection, collisions and lost sharing need particular histories.",
     [DD, DH, CA, TA], [("normalisation + unique table", "src/dd.cpp normalizeV/makeVEdge, include/table.hpp lookup"), ("computed tables", "include/cache.hpp AddCache/MulCache"), ("mv_multiply / vv_add", "src/dd.cpp")],
     [("unique tables", "one node per distinct (level, children)", "vUnique/mUnique"), ("operation caches", "memoised sums and products keyed by node", "_aCache/_mCache")],
     ["amplitudes read from the diagrams after every operation"], HOOK)
prop("C02", "Gate objects denote their operator and stay valid over every history",
     "Every gate built by the gate library (one-, two- and many-qubit, any targets in any order, positive or negative controls) denotes exactly the documented operator, and products, sums and tensor products of gate objects denote the product, sum and tensor product. This holds in every engine state, and gate objects that were handed to a gate collection keep denoting the same operator.",
     ["histories", "inputs"], "all gate kinds, target orders, control patterns and parameters, interleaved with algebra, state evolution and gate collections",
     "Tests check a few gates on a fresh engine; identity-stripping, cache reuse between operators of different size and collections in between are history-dependent.",
     [DD, DH, CA, TA], [("gate construction", "src/dd.cpp makeGate/makeTwoQubitGate/makeLargeGate"), ("identity stripping", "src/dd.cpp makeMEdge"), ("mm_multiply/mm_add/mm_kronecker", "src/dd.cpp"), ("gc_mat", "src/dd.cpp")],
     [("gate unique table", "one node per distinct gate sub-matrix", "mUnique")], ["dense matrix read from the diagram after every operation"], HOOK)
prop("C03", "Measurement never yields an impossible outcome and collapses correctly",
     "For every state reachable by any history and every value the random source can produce, measuring returns an outcome the state gives non-zero probability, a collapsing measurement leaves exactly the renormalised projection onto that outcome, and a non-collapsing one leaves the state untouched. Over many draws outcomes follow the Born rule, jointly over successive measurements, and reported probabilities equal those of the state.",
     ["histories", "inputs"], "all states, measured qubits and random draws, including the extreme draws 0, largest-below-1 and exactly at a probability boundary, interleaved with gates and collections",
     "Tests sample a handful of seeds and check frequencies loosely; boundary draws, stale cached probabilities and degenerate branches are essentially never hit.",
     [DD], [("probability annotation cache", "src/dd.cpp probs/assignProbabilities"), ("measureAll / measureOneCollapsing / measureOne / probabilities", "src/dd.cpp")],
     [("probs", "per-node probability mass, kept between calls", "src/dd.cpp probs")], ["returned outcomes, collapsed states, probability vectors"], HOOK)
prop("C04", "Garbage collection preserves every live state and bounds memory",
     "Whenever a collection runs, forced or because its threshold was crossed, every state or gate handed to it still represents the same vector or operator afterwards, and everything computed later is unaffected by the collection having happened. Memory that only garbage occupied becomes available again, so a program that keeps a bounded set of live objects and collects regularly runs in bounded memory.",
     ["histories", "schedules"], "collections at any point of any history, single- and multi-state forms, any thresholds, states sharing sub-diagrams",
     "Tests call the collector once on a small state; use of stale caches or freed nodes needs a collection between particular operations, and leaks need many rounds.",
     [DD, CA, TA], [("gc / gc_mat rebuild into a fresh table and clear caches", "src/dd.cpp"), ("clearAll", "include/cache.hpp")],
     [("GC_SIZE/GC_SIZE_M", "collection thresholds", "src/dd.cpp")], ["states, gates and allocator after every operation"], HOOK)
prop("C05", "Distributed evolution equals single-node evolution",
     "When a state is partitioned over a power-of-two number of ranks, applying any gate on any qubits (local or distributed) through the ring or the broadcast scheme leaves on every rank exactly its slice of the vector a single node would compute. The result does not depend on message delays, on which rank runs when, on message buffering or on ranks collecting garbage at different times.",
     ["schedules", "histories", "configurations"], "1-8 ranks, all gates/targets/controls, both schemes, every interleaving of ranks and message deliveries allowed by the transport",
     "The tests run one schedule on one or two ranks with a few gates; rank counts above two, gates that strip identity levels, zero slices and slow ranks are not reached.",
     [DD, DH, "qdd/bindings.cpp"], [("block extraction", "src/dd.cpp getMPIGate"), ("ring multiply", "src/dd.cpp mv_multiply_MPI"), ("broadcast multiply", "src/dd.cpp mv_multiply_MPI_bcast3"), ("diagram serialisation", "src/dd.cpp vNode_to_vec/vec_to_vNode")],
     [("slice", "each rank's part of the vector", "caller")], ["slices of all ranks after every operation"], HOOK)
prop("C06", "Distributed measurement is one measurement, agreed by all ranks",
     "A measurement of a distributed state yields one outcome that every rank reports identically, that has non-zero probability in the global state for every random draw, and whose collapse leaves on every rank its slice of the renormalised global projection. Reported probabilities are those of the global state, on every rank and for every distribution of the state over the ranks, including ranks whose slice is empty.",
     ["schedules", "histories", "inputs"], "1-8 ranks, any measured qubit (local or distributed), any draws, any slices including empty ones, any delivery order",
     "The tests measure simple states on at most two ranks with random seeds.",
     [DD], [("measureOneCollapsingMPI / measureOneMPI / measureAllMPI / probabilitiesMPI", "src/dd.cpp"), ("all_reduce/gather/broadcast of partial sums", "src/dd.cpp")],
     [("per-rank random generators", "only rank 0's draw decides", "caller")], ["outcome on every rank, slices after collapse"], HOOK)
prop("C07", "Distributed operations always complete and leave no stray messages",
     "When every rank calls the same sequence of distributed operations, each operation completes on all ranks under every message delay, interleaving and buffering the transport allows, without deadlock. It leaves no message behind, so that a later operation can never receive data of an earlier one.",
     ["schedules", "histories"], "1-8 ranks, all distributed operations in any order, rendezvous or eager sends, arbitrarily slow ranks",
     "A real run shows one schedule with eager buffering; deadlocks under rendezvous sends or leftovers matched by a later operation do not appear.",
     [DD], [("isend/recv/wait_all pattern of the ring", "src/dd.cpp mv_multiply_MPI"), ("collective order", "src/dd.cpp")],
     (), ["hub: blocked ranks, unmatched messages, uncompleted requests"], HOOK)
prop("C08", "A state sent to another rank arrives intact",
     "A diagram sent from one rank to another, blocking or non-blocking, arrives as exactly the same vector, whatever either engine has in its tables, however long the message is delayed and whatever the sender does meanwhile. Gathering a distributed vector yields the amplitudes of the global state in order.",
     ["schedules", "histories"], "all diagrams incl. empty ones, blocking/non-blocking, delayed delivery, garbage collection on either side in between",
     "The tests transfer one diagram between idle ranks.",
     [DD, "qdd/bindings.cpp"], [("send_dd/receive_dd", "src/dd.cpp"), ("getVectorMPI gathering", "qdd/bindings.cpp")], (), ["received diagram on the destination rank"], HOOK)
prop("C09", "A saved state survives exactly or the failure is reported",
     "Loading a state that was saved successfully yields the same vector, in any engine and whatever that engine did before. If the disk fails, fills up or cannot keep all the data, then saving or loading reports an error; a file that is incomplete (a save that failed or was cut off by a crash, or a file that lost its end) is never silently turned into a different state, and the engine stays usable.",
     ["fault_sequences", "crash_points", "histories"], "short writes, ENOSPC/EIO at any write, flush or close, files cut off at any byte by a crash, interrupted system calls",
     "Tests save and load once on a healthy disk.",
     [DD], [("save_binary / load_binary", "src/dd.cpp"), ("vNode_to_vec / vec_to_vNode", "src/dd.cpp")], (), ["state after load, exceptions from save and load"], HOOK)
prop("C10", "Multi-threaded evolution gives the single-threaded result",
     "With the worker pool running, any sequence of gate applications yields on every thread schedule exactly the state the single-threaded engine yields, and the operation terminates. Collections between operations do not change that.",
     ["schedules", "histories"], "every interleaving of worker threads and fibers at every synchronisation point and memory access the simulator can preempt",
     "Tests observe whatever interleavings the machine happens to produce; corruption needs rare ones.",
     [DD, TA, CA, "src/task.cpp", "include/task.h"], [("fiber fork/join in mv_multiply2/vv_add2", "src/dd.cpp"), ("per-bucket spin lock", "include/table.hpp lookup"), ("thread-local caches", "include/table.hpp, src/dd.cpp _mCaches")],
     [("unique table buckets", "shared by all workers", "include/table.hpp")], ["resulting diagrams"], HOOK)
prop("C11", "The shared node table stays canonical and race-free under concurrency",
     "When several threads insert nodes concurrently, all of them obtain the same node for equal contents, no inserted node is lost, and no thread ever sees a partially built node. No unsynchronised conflicting access to shared engine data happens.",
     ["schedules"], "every interleaving of concurrent inserts into the same and different buckets",
     "A race needs two threads inside a few instructions; tests cannot force it.",
     [TA, DD], [("per-bucket lock", "include/table.hpp lookup"), ("per-thread node allocator", "include/table.hpp getNode/returnNode")], (), ["returned nodes, bucket contents"], HOOK)
prop("C12", "The worker pool starts, drains and stops on every schedule",
     "Creating a worker pool, running jobs on it and destroying it always terminates, every job that is submitted and awaited runs exactly once and delivers its own result, whichever workers run it and its sub-jobs. A pool can be created again after an earlier one was destroyed.",
     ["schedules", "histories"], "every interleaving of workers, submitter and shutdown; repeated create/destroy; 1-6 workers",
     "Tests create one pool and never race its shutdown.",
     ["src/task.cpp", "include/task.h", "qdd/bindings.cpp"], [("Scheduler constructor/destructor, condition variables", "src/task.cpp"), ("work stealing fiber algorithm", "src/task.cpp")], (), ["job completion, thread exit"], None)
prop("C13", "The work-stealing queue hands out every task exactly once",
     "For one owner pushing and popping at one end and any number of thieves stealing at the other, every pushed item is returned exactly once (to the owner or to one thief), none is lost and none is invented, also while the queue grows or an allocation fails. The owner gets its newest item, a thief the oldest one.",
     ["schedules"], "every interleaving of owner and thieves at every memory access, growth included",
     "The queue has no concurrent test.",
     ["include/wsq.hpp"], [("top/bottom protocol, resize", "include/wsq.hpp")], (), ["multiset of returned items"], None)
prop("C14", "Epoch reclamation never frees what a reader may still use",
     "Between entering and leaving an epoch a thread may use any object it reached after entering; no such object is freed before it leaves. Every retired object is freed exactly once: at the latest when the epoch manager is destroyed, and earlier by a thread that goes on retiring objects once every other thread has ended its registration. Threads may register and end their registration at any time.",
     ["schedules"], "every interleaving of readers, writers and collectors, including store-buffer delays allowed by the memory model",
     "The component has no test at all.",
     ["src/epoch.cpp", "include/epoch.h"], [("enterEpoch / exitEpoch / markNodeForDeletion", "src/epoch.cpp")], (), ["free calls versus active readers"], None)
prop("C15", "The distributed backend gives single-node results for whole circuits",
     "Running a circuit through the Python backend with the state distributed over several ranks, in any of its swap strategies, gives the same state vector and the same outcome statistics as a single-node run, on every rank identically where results are shared. The run completes under every rank schedule.",
     ["schedules", "programs", "configurations"], "random circuits incl. mid-circuit measurement, reset and conditionals; 1-4 ranks; all swap strategies; any interleaving",
     "The distributed Python path is not tested beyond what one process can run.",
     [BK, "qdd/bindings.cpp", DD], [("do_swap_v1/do_swap_v2/restore_swap qubit relocation", "qdd/qdd_backend.py")], (), ["state vectors, counts"], None)
prop("C16", "Every shot is an independent, faithful execution of the circuit",
     "For any circuit, with measurements, resets and classically conditioned gates anywhere, each shot's classical result is one the circuit can produce with non-zero probability, shots are independent of each other, and the counts add up to the number of shots and follow the circuit's exact distribution. This holds for every accepted option of the job (memory, state-vector mode, bound parameters, transpilation), whatever ran before in the same process and whatever values the random source yields.",
     ["programs", "histories", "inputs"], "random dynamic circuits, registers, shot counts, random draws; several experiments per job; several jobs per process",
     "Tests sample a few named circuits and compare loosely.",
     [BK, "qdd/circuit_property.py", "qdd/bindings.cpp"], [("_evaluate_circuit shot loop, sampling fast path", "qdd/qdd_backend.py")], (), ["counts, memory"], None)
prop("C17", "A failing job is contained",
     "If a circuit of a job fails, for whatever reason and at whatever point, the failure is reported to the caller of that job, and every later job in the same process gives the results it would have given without the failure. No state, thread pool or random stream of the failed job leaks into later ones.",
     ["fault_sequences", "histories"], "engine errors, allocation failures and unsupported instructions at any point of any experiment of a job, any number of threads",
     "Tests check only that an error is raised in one place.",
     [BK, "qdd/qdd_job.py", "qdd/bindings.cpp", DD], [("run_experiment try/finally, job submission", "qdd/qdd_backend.py")], (), ["job status, later results"], None)
prop("C18", "An allocation failure loses nothing",
     "If memory runs out inside any engine operation, the operation either completes or raises an error, and in both cases every state and gate the caller holds keeps its value and the engine remains usable for every later operation.",
     ["fault_sequences", "histories"], "failure of the n-th allocation inside any operation of any history, repeatedly",
     "Tests never make an allocation fail.",
     [DD, TA, CA], [("node and cache chunk growth", "include/table.hpp getNode, include/cache.hpp getBucket"), ("gc rebuild before drop", "src/dd.cpp gc")], (), ["states, gates and later results after the failure"], HOOK)
prop("C19", "A seeded run is reproducible and independent of earlier runs",
     "When the caller fixes the random seed, running the same circuits again gives identical counts, in the same process after any other work, and in a new process. Without measurement randomness (state vector and expectation values) results never depend on what ran before.",
     ["histories", "configurations"], "any prior jobs, collections and thresholds; repeated jobs in one process; estimator and sampler included",
     "Tests run each job once per process.",
     [BK, "qdd/qdd_sampler.py", "qdd/qdd_estimator.py", "qdd/bindings.cpp"], [("random generator ownership", "qdd/bindings.cpp mt, qdd/qdd_backend.py")], (), ["counts of repeated jobs"], None)

prop("C20", "Sampler, Estimator and merge_circuit return the circuits' own quantities",
     "The Sampler returns, for every circuit of a call with its own parameters, the frequencies of as many shots as asked for, or the exact distribution over its classical bits. The Estimator returns, for every circuit, observable and parameter set of a call, the exact expectation value or an estimate within sampling error of it, whichever options and grouping are used. A merged operator equals the circuit's unitary. Earlier calls on the same instance change nothing.",
     ["inputs", "histories", "configurations"], "any circuits, observables, parameter sets, orders and repetitions in a call; any options; repeated calls on one instance",
     "Tests run a few textbook circuits, mostly one circuit and one observable per call, so that results attributed to the wrong circuit, parameter set, observable or bit do not show.",
     ["qdd/qdd_sampler.py", "qdd/qdd_estimator.py", BK, "qdd/qdd_gate.py"], [("circuit and transpilation caches", "qdd/qdd_sampler.py, qdd/qdd_estimator.py"), ("observable grouping and post-processing", "qdd/qdd_estimator.py"), ("exact probabilities over classical bits", "qdd/qdd_backend.py"), ("merge_circuit", "qdd/qdd_backend.py")],
     (), ["quasi-distributions, expectation values, merged matrices"], None)
prop("C21", "Jobs in flight at the same time in one process do not affect each other",
     "Several clients of one process may run backend jobs, merge circuits and submit Sampler and Estimator jobs at the same time, on instances of their own or on shared ones, and may collect results later, in any order. Whatever the schedule, every job gives the result it would have given alone (with a fixed seed, the identical one), a failing job fails alone, no job waits forever, and what the caller does with its circuits and observables after submitting them changes nothing.",
     ["schedules", "histories"], "1-4 client threads with 1-3 jobs each, every interleaving of their steps and of the jobs of the primitives, shared and separate instances, pending jobs, failing jobs, collections in between",
     "Tests run one job at a time and wait for it; the engine's global state, the shared random stream and the per-instance caches are only exposed when another job gets in between.",
     [BK, "qdd/qdd_sampler.py", "qdd/qdd_estimator.py", "qdd/qdd_gate.py", "qdd/bindings.cpp"], [("serialised use of the engine", "qdd/qdd_backend.py _engine_lock"), ("registration of circuits and observables", "qdd/qdd_sampler.py, qdd/qdd_estimator.py _run"), ("primitive jobs run on threads of their own", "qiskit PrimitiveJob")],
     [("instance caches", "circuits, parameters, observables, transpiled circuits, layouts", "Sampler / Estimator attributes")], ["counts, memory, quasi-distributions, expectation values, merged matrices, job status"], None)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
