# Check definitions: TUs are (source, defines, sanitizer). See DESIGN.md for the oracles.
CHECKS={
"P01":dict(tus=[("p01.cpp","-DPART=1","tsan"),("p01.cpp","-DPART=2","tsan"),("p01.cpp","-DPART=3","tsan"),("p01.cpp","-DPART=4","tsan"),("p01.cpp","-DPART=2","plain")],
 rule="one case = one scheduler built, loaded by 1-5 posting threads (job bodies slow, throwing, posting children), then drained or dropped while loaded; distinct = different observed global execution order of the jobs",
 technique="runtime monitoring: execution ledger per job under stress and injected delays, ThreadSanitizer build",
 level_note="Every explored execution is judged by an exact ledger (each job id run once, each job object destroyed); schedules are sampled with injected delays, not enumerated."),
"P09":dict(tus=[("p09.cpp","","tsan"),("p09.cpp","","asan")],
 rule="one case = a random sequential history checked op by op against a model, or a concurrent history (1-4 producers, 1-4 consumers popping/stealing/blocking) checked for conservation, per-producer order, sizes and leftover destruction; distinct = different order of delivery",
 technique="runtime monitoring: recorded queue histories against a model, ThreadSanitizer and AddressSanitizer builds",
 level_note="Exact for every explored history; histories and schedules are sampled."),
"P03":dict(tus=[("p03.cpp","-DPART=1","tsan"),("p03.cpp","-DPART=2","tsan"),("p03.cpp","-DPART=1","asan")],
 rule="one case = 1-3 servants on one single-thread scheduler, 1-5 concurrent callers using every kind of proxy member while copying, moving, assigning and dropping proxies; distinct = different global execution order of the calls",
 technique="runtime monitoring: servant entry/exit, order and lifetime monitors under stress; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly (thread, exclusion, per-caller order, one construction and destruction); schedules are sampled."),
"P04":dict(tus=[("p03.cpp","-DPART=3","tsan"),("p03.cpp","-DPART=3","asan")],
 rule="one case = 1-6 servants on a multiple-thread scheduler with 1-4 workers, concurrent callers, some servants blocked; distinct = different order of calls",
 technique="runtime monitoring: servant entry/exit, order, progress and lifetime monitors under stress; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; progress is judged with a 25 s bound while threads are idle; schedules are sampled."),
"P14":dict(tus=[("p14.cpp","-DPART=%d"%i,"asan0") for i in (1,2,3,4)],
 rule="one case = one algorithm on one generated input (size 0-600, duplicates, sorted, planted matches), cutoff (1 .. 10n) and calling form, compared with the sequential algorithm; distinct = different (input, cutoff, form)",
 technique="runtime monitoring: differential oracle (sequential standard algorithm) plus element and functor lifetime monitors, AddressSanitizer build",
 level_note="Exact for every explored input; inputs are generated at random, not enumerated."),
"P15":dict(tus=[("p15.cpp","-DPART=%d"%i,"asan0") for i in (1,2,3,4,5)],
 rule="one case = one algorithm on one generated input, cutoff (1 .. 10n), calling form and pool size, compared element by element with the sequential algorithm; guard elements around destinations, call counts and sub-ranges of the user function checked; distinct = different (input, cutoff, form)",
 technique="runtime monitoring: differential oracle (sequential standard algorithm), guard elements and call monitors, AddressSanitizer build",
 level_note="Exact for every explored input; inputs are generated at random, not enumerated."),
"P16":dict(tus=[("p16.cpp","-DPART=%d"%i,"asan0") for i in (1,2,3,4)],
 rule="one case = one sort on one generated input (random, sorted, reversed, reversed with equal runs, all equal, nearly sorted), strict weak order, cutoff and calling form; distinct = different (input, cutoff, form)",
 technique="runtime monitoring: sortedness, permutation and stability oracle plus element lifetime monitors, AddressSanitizer build",
 level_note="Exact for every explored input; inputs are generated at random, not enumerated."),
}
CHECKS.update({
"P17":dict(tus=[("p17.cpp","-DPART=%d"%i,"asan0") for i in (1,2,3,4,5,6)],
 rule="one case = one reduction, inner product or scan on one generated input with an associative, non-commutative operation whose default value is or is not the identity, cutoff and calling form; distinct = different (input, cutoff, form)",
 technique="runtime monitoring: differential oracle (sequential fold) with a non-commutative operation, guard elements and element lifetime monitors, AddressSanitizer build",
 level_note="Exact for every explored input; inputs are generated at random, not enumerated."),
})
CHECKS.update({
"P18":dict(tus=[("p18.cpp","-DPART=%d"%i,"asan0") for i in (1,2,3,4)],
 rule="one case = one partition, merge, selection, unique or group-by on one generated input (also above the size at which partition goes parallel), predicate or order, cutoff, position, thread count and calling form; distinct = different (input, parameters, form)",
 technique="runtime monitoring: contract oracle (boundary, permutation, order, stability against the sequential algorithm), guard elements and element lifetime monitors, AddressSanitizer build",
 level_note="Exact for every explored input; inputs are generated at random, not enumerated; partition's lock-free block scheme is run under several threads but its schedules are sampled."),
})
_T=[("p14.cpp",i) for i in (1,2,3,4)]+[("p15.cpp",i) for i in (1,2,3,4,5)]+[("p16.cpp",i) for i in (1,2,3,4)]+[("p17.cpp",i) for i in (1,2,3,4,5)]+[("p18.cpp",i) for i in (1,2,3,4)]
CHECKS.update({
"P20":dict(tus=[(s,"-DPART=%d -DTHROWMODE=1"%i,"asan0") for s,i in _T],
 rule="one case = one algorithm with a user function that throws (once or from a random call on; a std or non-std exception) on one generated input, cutoff and calling form; distinct = different (input, cutoff, form)",
 technique="runtime monitoring with fault injection: throwing user functors, monitors for swallowed or foreign exceptions, missing completion, leaked and dead elements; AddressSanitizer/LeakSanitizer build",
 level_note="Exact for every explored case; completion is judged with a 30 s bound on idle pools; inputs and throwing positions are generated at random."),
})

CHECKS.update({
"P05":dict(tus=[("p05.cpp","-DPART=1","tsan"),("p05.cpp","-DPART=2","tsan"),("p05.cpp","-DPART=1","asan"),("p05.cpp","-DPART=3","asan")],
 rule="one case = 4-40 tasks (void, int, move-only, non-default-constructible, vector results; value or one of 4 kinds of exception; plain, interruptible, continuation trees of depth 0-3, servant members) on one scheduler with 1-4 waiting threads, or a random history of copies, moves and assignments of expected values compared with a model; distinct = different outcome vector / history",
 technique="runtime monitoring: per-task ledger of result, exception, readiness and task-tree completion, model of expected; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; never-ready is judged with a 25 s bound on idle schedulers; schedules are sampled."),
})
CHECKS.update({
"P06":dict(tus=[("p06.cpp","-DPART=1","tsan"),("p06.cpp","-DPART=2","tsan"),("p06.cpp","-DPART=1","asan"),("p06x.cpp","","tsan"),("p06x.cpp","","asan")],
 rule="one case = a servant posting 1-400 tasks of 8 kinds (void, int, move-only, throwing, continuation trees) through 5 posting forms from 1-3 callers, with chained and throwing callbacks and nested trackable objects, the servant (and scheduler, pool) kept alive or destroyed meanwhile; distinct = different execution order of the callbacks",
 technique="runtime monitoring: per-task ledger (task runs, callback runs, thread, exclusion, servant alive, result), ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; a callback that never comes is judged with a 25 s bound on idle schedulers; schedules are sampled."),
"P07":dict(tus=[("p06.cpp","-DPART=3","tsan"),("p06.cpp","-DPART=3","asan")],
 rule="one case = safe callbacks of one servant (immediate and force-post, with arguments, throwing, nested, of an object inside the servant) called, copied and destroyed by 1-5 threads while the servant lives, dies or dies with its scheduler; distinct = different execution order of the calls",
 technique="runtime monitoring: per-call ledger (runs, thread, exclusion, per-caller order, servant alive), ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; schedules are sampled."),
})
CHECKS.update({
"P08":dict(tus=[("p08.cpp","-DPART=1","tsan"),("p08.cpp","-DPART=2","tsan"),("p08.cpp","-DPART=3","tsan"),("p08.cpp","-DPART=1","asan"),("p08x.cpp","","tsan")],
 rule="one case = 2-60 tasks of 8 kinds (plain, void, raw, with callback, continuation trees, posted to self, and bystanders nobody may interrupt) with 5 kinds of body on one scheduler, interrupted before start, while running, late, repeatedly, or during shutdown by 1-3 threads, then later tasks on the same workers; distinct = different global start order",
 technique="runtime monitoring: per-task ledger (requested, started, stopped, finished, result, callback), bystander monitors at every interruption point, ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; not stopping at an interruption point is judged with a 25 s bound; schedules are sampled."),
})
CHECKS.update({
"P02":dict(tus=[("p02.cpp","-DPART=1","tsan"),("p02.cpp","-DPART=2","tsan"),("p02.cpp","-DPART=2","asan")],
 rule="one case = one scheduler (11 kinds) with 1-4 owning threads copying, moving, assigning and dropping proxies and 0-3 threads locking weak handles while jobs (some locking their own scheduler) run, or a series of short lives, or two layered servants owning pools; distinct = different interleaving observed (execution order, successful and failed locks)",
 technique="runtime monitoring: thread-local markers whose destruction proves that threads ended, weak-lock validity monitor, execution ledger, OS thread count; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; schedules are sampled."),
})
CHECKS.update({
"P10":dict(tus=[("p10.cpp","-DPART=1","tsan"),("p10.cpp","-DPART=2","tsan"),("p10.cpp","-DPART=2","asan"),("p10x.cpp","","tsan")],
 rule="one case = jobs with random priorities posted by several threads to a multi-queue container (1-6 queues of different types) or a multiqueue pool while its workers are blocked, then released; queues disabled and enabled again; distinct = different execution order",
 technique="runtime monitoring: execution ledger with priorities and posting order, disabled-queue monitor; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; schedules are sampled."),
})
CHECKS.update({
"P11":dict(tus=[("p11.cpp","-DPART=1","tsan"),("p11.cpp","-DPART=2","tsan"),("p11.cpp","-DPART=1","asan")],
 rule="one case = a composite of 1-4 random pools (10 kinds, any_callable or any_loggable jobs): jobs with random pool numbers through 6 ways of posting and servants; pools blocked while stealing ones are idle; random nested load with the composite dropped at any time; distinct = different (configuration, assignment of jobs to pools)",
 technique="runtime monitoring: per-job ledger of pool, thread and number of executions, comparison of what the composite and its pools report; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; idle pools not stealing is judged with a 25 s bound; schedules are sampled."),
})
CHECKS.update({
"P12":dict(tus=[("p12.cpp","-DPART=1","tsan"),("p12.cpp","-DPART=2","tsan"),("p12.cpp","-DPART=1","asan")],
 rule="one case = 1-80 random task trees (up to 300 nodes, 17 forms of continuation: variadic, tuple, vector, nested continuations, tasks with futures, vectors of futures, lambdas; results long, void, copyable and move-only; 12 % failing) started in 6 ways on one of 9 pools of 1-6 workers; distinct = different tree shapes",
 technique="runtime monitoring: per-node ledger of executions and continuation calls, results and exceptions compared in position with a serial evaluation of the same tree, live-object accounting; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; a continuation not called is judged with a 30 s bound; trees and schedules are sampled."),
})
CHECKS.update({
"P13":dict(tus=[("p13.cpp","-DPART=1","tsan"),("p13.cpp","-DPART=2","tsan"),("p13.cpp","-DPART=3","tsan"),("p13.cpp","-DPART=3","asan")],
 rule="one case = 1-3 continuations with a timeout (6 forms: futures, vectors of futures, tasks, callback tasks) whose subtasks all finish, are blocked until the handler is called, race with the timeout or are interrupted; or an all_of / any_of of 0-12 tasks of mixed types with random failures, blocked losers, used directly, nested in another continuation or interruptible; on one of 8 pools; distinct = different contents delivered",
 technique="runtime monitoring: handler call ledger with monotonic clock bounds, results compared in position with what each subtask produced, live-object accounting; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly (too early: exact, 1 ms for clock granularity; never: 30 s bound); schedules are sampled."),
})
CHECKS.update({
"P19":dict(tus=[("p19.cpp","-DPART=1","tsan"),("p19.cpp","-DPART=2","tsan"),("p19.cpp","-DPART=1","asan")],
 rule="one case = 1-4 random compositions of up to 80 steps (13 kinds: then with values, void, move-only style tokens and continuations, if_then_else, if_/else_if/else_, invoke, parallel_invoke, all_of, then feeding parallel_reduce and parallel_for), 12 % of the steps throwing, failures recovered or passed on, started in 4 ways on one of 9 pools of 1-4 workers; distinct = different trees, branches taken and outcomes",
 technique="runtime monitoring: per-step ledger against a serial evaluation of the composition (executions, inputs, order, branch taken, final result), live-object accounting; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; a composition not finishing is judged with a 30 s bound; compositions and schedules are sampled. When both parts of an all_of fail the case is not used (either exception is right)."),
})
CHECKS.update({
"P22":dict(tus=[("p22.cpp","-DPART=1","tsan"),("p22.cpp","-DPART=2","tsan"),("p22.cpp","-DPART=3","asan")],
 rule="one case = jobs of 14 forms (raw, future, interruptible, interrupted before or during execution, continuation; ok or throwing) on a loggable scheduler of one of 10 kinds with concurrent readers and clears, or a servant with logged members, callbacks and continuations, or randomly generated diagnostics summarised, merged and formatted; distinct = different (configuration, execution order) or input",
 technique="runtime monitoring: execution ledger (who ran what, when, how it ended) against the recorded diagnostics, reference summaries; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; schedules and inputs are sampled."),
})
CHECKS.update({
"P26":dict(tus=[("p26.cpp","","tsan"),("p26.cpp","","asan")],
 rule="one case = one of 9 kinds of schedulers (single, 4 pools, composite with a nested asio pool, asio, multiple-thread, io pool) with 1-5 workers, idle or under load with blocked workers: reported ids against threads started and threads seen by jobs, functions for all threads from 1-4 callers with 4 outcomes also just before shutdown, thread names, processor binding, cpu load policies, schedulers nested in jobs of another; distinct = different (scheduler, workers, observation)",
 technique="runtime monitoring: per-thread execution ledger (thread-local serials), thread count of the process, thread names and affinity read back from the system; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly; a future not becoming ready is judged with a 20 s bound; schedules are sampled. For the io pool only the threads which are always present have a future."),
})
CHECKS.update({
"P27":dict(tus=[("p27.cpp","","tsan"),("p27.cpp","","asan")],
 rule="one case = an io pool (2 queue types which know their size, minimum 1-3, maximum up to +4, also given in the wrong order) through 1-3 rounds of blocking all its threads and posting more, bursts from 1-4 producers and from jobs with exceptions and interruptions also after the end of the thread, destruction with jobs waiting and running, or as thread pool of a servant, with the reported threads sampled all the time; distinct = different (threads used, peak, bounds, jobs)",
 technique="runtime monitoring: job ledger, number of jobs running at once, sampled thread ids and process thread count; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly, growth, shrinking and completion with bounds of 20-30 s; schedules are sampled. Growth is required as implemented and tested upstream: a thread is added when a job is posted while at least one other is waiting, with a queue which reports its size."),
})
CHECKS.update({
"P24":dict(tus=[("p24.cpp","","tsan"),("p24.cpp","","asan")],
 rule="one case = a servant driving 1-4 timers through a random history of create, wait, wait with duration, reset, cancel and destroy (durations 0 to 25 ms and 100 s) next to other work, a timer re-arming itself, the servant or the scheduler dying with waits pending, several asio threads, functors given to the timer directly, or jobs of all kinds on an asio scheduler alone or in a composite; distinct = different outcome vectors",
 technique="runtime monitoring: ledger of waits (calls, thread, steady-clock time, error code against the operations issued), job ledger, live-object accounting; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored execution is judged exactly, completion with a bound of 20 s; schedules and histories are sampled. Timers are operated on asio schedulers of one thread (the operations of a servant of a multi-thread scheduler are not serialised), on several threads they are only set once."),
})
CHECKS.update({
"P23":dict(tus=[("p23.cpp","","tsan"),("p23.cpp","","asan")],
 rule="one case = a batch of random topics against an independent matcher; a random history of creating and destroying servants, subscribing (no topic, exact, channel with wildcards; void, bool, single-shot, self-unsubscribing, republishing callbacks), unsubscribing, dropping schedulers, registering schedulers late and publishing from servants and pool tasks, compared after every step with a model; or publishers racing with subscription changes",
 technique="runtime monitoring: event log of every subscription against a model of the subscriptions (histories), and gap/duplicate/order rules on the logs (concurrent); thread, topic and after-unsubscribe monitors; live-object accounting; ThreadSanitizer and AddressSanitizer builds",
 level_note="Every explored history is judged exactly; schedules and histories are sampled. Subscribers live in single-thread schedulers (thread pools as subscribers are an open TODO of the code), and their callbacks do not throw."),
})
T28=["p03.cpp -DPART=1","p05.cpp -DPART=1","p06.cpp -DPART=1","p08.cpp -DPART=1","p09.cpp","p10x.cpp","p11.cpp -DPART=1","p13.cpp -DPART=1","p19.cpp -DPART=1","p22.cpp -DPART=1","p23.cpp","p24.cpp","p26.cpp","p27.cpp"]
CHECKS.update({
"P28":dict(tus=[("p28.cpp","-DPART=1","tsan"),("p28.cpp","-DPART=2","tsan")]+[(x.split()[0]," ".join(x.split()[1:]),"tsan") for x in T28],
 keys=r"tsan:|visible:|deadlock:|hang:", scale={x.split()[0]:0.4 for x in T28},
 rule="one case = plain (unsynchronised) data handed through one kind of channel (futures, raw jobs, hops between pools, servant members, callbacks, safe callbacks, own posts, several-thread servants, continuation trees, algorithms, shutdown, interruption) of a random scheduler under delay injection with control operations (diagnostics, sizes, names, locks) in parallel; or one case of the workloads of the other concurrency checks, of which only races, lock-order inversions and deadlocks are judged here; distinct = different random histories",
 technique="runtime monitoring: ThreadSanitizer (happens-before races, lock-order inversions) over workloads whose data are ordered only by the library's own synchronisation, value checks of all data read, hang watchdog",
 level_note="Races are found for the executions observed (happens-before detection does not need the accesses to collide); lock-order inversions are reported for the lock pairs seen. Boost and the standard library are not instrumented except for their headers."),
})
T29=["p02.cpp -DPART=2","p03.cpp -DPART=1","p05.cpp -DPART=1","p06.cpp -DPART=1","p06.cpp -DPART=3","p08.cpp -DPART=1","p12.cpp -DPART=1","p13.cpp -DPART=3","p19.cpp -DPART=1","p22.cpp -DPART=3","p23.cpp","p24.cpp","p26.cpp","p27.cpp","p28.cpp -DPART=1"]
CHECKS.update({
"P29":dict(tus=[("p29.cpp","","ubsan")]+[(x.split()[0]," ".join(x.split()[1:]),"ubsan") for x in T29],
 keys=r"asan:|ubsan:|lifetime:|moved-from-use|.*leak|.*:(end_)?live|crash:|tsan:heap", scale={x.split()[0]:0.4 for x in T29},
 rule="one case = an algorithm over elements whose every construction, copy, move, use and destruction is accounted for (copyable and move-only elements, functors owning objects, iterator and moved-range forms, exceptions thrown at a random comparison, copy or default construction), move-only results and tasks through futures, interruption, continuation trees and shutdown; or one case of the workloads of the other concurrency checks, of which only lifetime, leak, memory and undefined-behaviour findings are judged here; distinct = different parameters or random histories",
 technique="runtime monitoring: AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer builds, live-object accounting with magic words in every tracked object (constructed once, destroyed once, not used after destruction or move)",
 level_note="Every explored execution is judged exactly; schedules, inputs and throw points are sampled. UBSan runs without the vptr, null, alignment and object-size groups (Boost headers trip them)."),
})
CHECKS.update({
"P21":dict(tus=[("p21.cpp","-DPART=1","asan"),("p21.cpp","-DPART=2","asan"),("p21.cpp","-DPART=3","asan")],
 rule="one case = a random history of 10-45 operations (all constructors, element access, insertion and erasure at any position, own elements as arguments, resizing, assignment, swap, moves, comparisons, scheduler set and released, the asynchronous push_back, resize, reserve, shrink_to_fit, merge and factory functions, alone and chained) over up to four asynchronous vectors and the same history on std::vector; after every operation contents, sizes, returned positions and the exact set of live elements inside the vectors' memory blocks are compared. Throwing histories make one construction of an element inside the vector's memory throw",
 technique="runtime monitoring: model-based differential oracle against std::vector, an address registry of live elements, a stateful tracking allocator (block size, owner, no live element at release), AddressSanitizer/LeakSanitizer; randomized operation histories with injected exceptions and delays",
 level_note="Every explored history is judged exactly; histories, sizes and cutoffs are sampled. Elements are at most some hundreds per vector, with cutoffs from 1 to 100 so that every parallel step splits. Throwing element operations are judged for constructors, push_back, emplace_back, reserve, resize, shrink_to_fit and the asynchronous factory, for exceptions thrown by constructions in the vector's own memory."),
})
