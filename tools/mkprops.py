#!/usr/bin/env python3
# Source of /verif/properties.jsonl: python3 tools/mkprops.py > properties.jsonl
import json
B="boost/asynchronous/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],mechanism=[dict(name=n,where=B+w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=B+w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("P01","Every posted job is executed exactly once, including at shutdown",
"A job accepted by any scheduler (single-thread, thread pools with one or several queues, stealing pools, composite, io pool, asio, multiple-thread), over any of the provided queues, job types and scheduler threads counts, is executed exactly once. That includes jobs posted concurrently from several threads, jobs posted from inside jobs while the posting scheduler is alive, jobs whose predecessors threw, and jobs still queued when the last proxy to the scheduler is destroyed: the queue is emptied before the threads stop. After that the job object and everything it captured has been destroyed.",
["schedules","configurations","histories"],"all interleavings of posters, workers and shutdown, for every scheduler x queue x job-type combination",
"Tests post a handful of jobs from one thread, to a few of the combinations, and rarely destroy a proxy with a loaded queue; lost or doubled jobs show only under contention or in the shutdown drain.",
["scheduler/single_thread_scheduler.hpp","scheduler/threadpool_scheduler.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/stealing_multiqueue_threadpool_scheduler.hpp","scheduler/composite_threadpool_scheduler.hpp","scheduler/io_threadpool_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp","extensions/asio/asio_scheduler.hpp"],
[("run loop and drain before stop","scheduler/threadpool_scheduler.hpp: run / execute_one_job"),("end job posted to each worker on destruction","scheduler/detail/lockable_weak_scheduler.hpp, scheduler_shared_proxy.hpp")],
[("executed count per job id","number of invocations of each posted job","user job body")],["job body invocation","job object destruction","proxy destruction return"])

p("P02","The last owner of a scheduler joins its threads; weak owners never block it",
"Destroying the last owning proxy of a scheduler returns only after all its worker threads have finished and been joined (it is not destroyed from one of these threads); servant proxies and servants own their schedulers likewise. Weak proxies and weak schedulers can be locked as long as an owner exists and not afterwards; jobs posted through a lock that was obtained are executed. Copies and moves of proxies share the same scheduler, and construction and destruction can be repeated indefinitely without leaking threads.",
["schedules","histories"],"all orders of copying, moving, locking and destroying proxies from several threads, at any queue fill level",
"Tests construct and destroy one proxy in one order; joins racing with weak locks and jobs still running are not reached.",
["scheduler_shared_proxy.hpp","scheduler_weak_proxy.hpp","any_shared_scheduler_proxy.hpp","any_scheduler.hpp","scheduler/detail/lockable_weak_scheduler.hpp"],
[("shared_ptr owned scheduler with join in proxy destructor","scheduler_shared_proxy.hpp")],
(),["thread count in /proc/self/task","weak lock result","worker liveness at destructor return"])

p("P03","A single-thread servant lives, runs and dies in one thread, calls in FIFO order",
"All calls made through a servant proxy, as well as the servant's constructor and destructor, execute in the single thread of its scheduler, never two at a time. Calls from one caller execute in the order made; the servant is constructed before the first and destroyed after the last call, exactly once, in its scheduler thread, after the last proxy copy is gone, wherever that copy was destroyed, reassigned or moved. An exception thrown by the servant's constructor or member is reported to the caller and leaves the scheduler usable.",
["schedules","histories"],"all interleavings of several callers, copies, assignments and destructions of proxies",
"Tests check thread ids for one caller and one proxy; concurrent callers, proxy assignment and last-release races are not exercised.",
["servant_proxy.hpp","scheduler/single_thread_scheduler.hpp","trackable_servant.hpp"],
[("servant creation and destruction are posted","servant_proxy.hpp: init_servant_proxy, servant_deleter")],
[("servant data","non-atomic members only touched in the scheduler thread","user servant")],["servant member entry/exit with thread id","servant ctor/dtor"])

p("P04","A multiple-thread scheduler runs each servant in one thread at a time, in order",
"When several servants share a multiple-thread scheduler, a servant is never entered by two threads at the same time, its calls are executed in the order each caller made them, and each call reaches the servant it was made on whatever kind of proxy member is used, exactly once. Different servants may run in parallel, and a servant that blocks does not prevent another one from being serviced as long as a thread is free. Destruction of a servant is ordered after its calls in the same way.",
["schedules","configurations"],"all interleavings of callers and worker threads, any number of servants and threads",
"The only test runs a few servants with a fixed call pattern, and would not see a rare overlap or reordering.",
["scheduler/multiple_thread_scheduler.hpp","servant_proxy.hpp"],
[("per-queue taken flag and queue index carried by the priority","scheduler/multiple_thread_scheduler.hpp: execute_one_job")],
(),["servant member entry/exit","sequence number per caller and servant"])

p("P05","Futures deliver the posted task's result or exception exactly once",
"The future returned by posting a task (plain, interruptible, through a servant proxy member, or for a task that returns a continuation) becomes ready exactly once, after the task and the whole tree of its continuations have finished, with the value the task produced or the exception it threw, never with success when the task failed. It holds for void, copyable, move-only and non-default-constructible results, and with any scheduler. The expected values used to transport results keep value or exception across copy and move, and rethrow the stored exception when read.",
["schedules","inputs"],"all result types, outcomes (value, exception, continuation), posting functions and interleavings",
"Tests check a single value or exception for int and void; void continuations failing, move-only results and concurrent waiters are missing.",
["post.hpp","expected.hpp","continuation_task.hpp","servant_proxy.hpp"],
[("promise moved into the posted job","post.hpp: post_future, interruptible_post_future"),("expected","expected.hpp")],
(),["future.get()","task body"])

p("P06","Callbacks run once, in the servant's thread, and never after it is gone",
"For every task a servant posts with a callback, exactly one callback is executed, in the thread of the servant's own scheduler (never in a pool thread), after the task, and with its result or exception; if the servant is destroyed first, the callback is not executed at all. The callback may find the servant alive and not concurrently used. A task that a dead servant had posted and which has not started is not required to run, and the captured objects of task and callback are released. The same holds for tasks the servant posts to itself, which do not run once it is gone; a copy of a trackable object has a life of its own.",
["schedules","histories"],"all interleavings of task completion, callback delivery, servant destruction and pool shutdown",
"Tests post a few callbacks while the servant stays alive; the destruction window is timing dependent.",
["trackable_servant.hpp","post.hpp","checks.hpp"],
[("post_callback wraps the callback with the servant's alive check and weak scheduler","post.hpp: post_callback"),("shared tracking object of the servant","trackable_servant.hpp")],
(),["callback body with thread id, result and servant state"])

p("P07","Safe callbacks run in the servant's thread if it is alive, else have no effect",
"A safe callback made by a servant can be called, copied and destroyed from any thread at any time, including after the death of the servant and of its scheduler: if the servant is alive when it is due the wrapped function runs exactly once per call in the servant's thread (immediately when already called from that thread and immediate execution was not disabled), with the arguments given; otherwise it does not run and does not crash. Calls from one thread through queued safe callbacks keep their order.",
["schedules","histories"],"all interleavings of calls from outside threads with servant and scheduler destruction",
"The corresponding test is itself flaky; the window between the alive check and destruction is never targeted.",
["trackable_servant.hpp","checks.hpp","post.hpp"],
[("make_safe_callback checks and posts through a weak scheduler","trackable_servant.hpp: make_safe_callback")],
(),["wrapped function invocation and thread id"])

p("P08","Interrupting a task prevents or stops it, and affects no other task",
"A task interrupted before it starts never runs; a running one is stopped at its next interruption point; a finished one is not affected. In every case its future becomes ready, with the result if the task completed and otherwise with an exception; the callback of a task which had started is called exactly once, likewise, that of a task interrupted before its start is never called, and no callback is called twice. Interruption of a task which returned a continuation stops or drops its subtasks. Interruption may be requested from any thread, several times, and races with start and end without harm. No other task, executed before or after on the same worker thread or by the requester, is interrupted or loses its subtasks.",
["schedules","histories"],"all interleavings of interruption requests with queueing, start, execution and completion, for all schedulers",
"Tests interrupt one sleeping task; races with start and completion, and leakage into the next job of the worker, are timing dependent.",
["detail/any_interruptible.hpp","scheduler/detail/interruptible_job.hpp","scheduler/detail/interrupt_state.hpp","post.hpp"],
[("interrupt state shared between job and handle","scheduler/detail/interrupt_state.hpp")],
(),["task start/stop","future or callback result","later jobs on the worker"])

p("P09","Queues neither lose, duplicate nor reorder jobs, and report their size correctly",
"Each provided queue type delivers every element pushed exactly once, whatever the number of producers and consumers, the initial capacity and the mix of popping and stealing, and an empty queue reports nothing to pop. First-in-first-out queues keep the order of each producer (stack-like ones last-in-first-out) when used by one consumer, and stealing takes from the documented end. When no operation is in progress the reported size is the number of elements inside and the reported maximum is the largest size reached, until it is reset.",
["schedules","inputs","configurations"],"all sequences and interleavings of push, pop, steal and size queries on each queue type",
"No test drives a queue directly under contention or past its initial capacity.",
["queue/lockfree_queue.hpp","queue/lockfree_stack.hpp","queue/lockfree_spsc_queue.hpp","queue/guarded_deque.hpp","queue/threadsafe_list.hpp","queue/circular_queue.hpp","queue/any_queue_container.hpp"],
[("per-queue locking or lock-free node list","queue/*.hpp")],
(),["push/pop history","get_queue_size / get_max_queue_size"])

p("P10","Priorities and queue enabling select the right queue and never lose a job",
"In a scheduler whose queue is an any_queue_container with several queues, a job posted with priority p goes to the p-th queue (1 is the highest; beyond the last means the last; 0 means any queue), and a free worker always takes a job of the highest-priority enabled queue that is not empty. Servant members, callbacks and posted constructors and destructors respect the priority given to them. Jobs of a disabled queue are not executed while it is disabled and are all executed, in order, once it is enabled again, other queues being unaffected; in a multiqueue pool (one queue per worker, idle workers stealing from the others) every job posted by any policy to any position, also out of range, is executed exactly once.",
["schedules","inputs","configurations"],"all priorities, queue layouts, enable/disable histories and interleavings",
"Tests use two or three priorities and a fixed posting order.",
["queue/any_queue_container.hpp","queue/find_queue_position.hpp","scheduler/multiqueue_threadpool_scheduler.hpp"],
[("find_position / priority to queue mapping","queue/find_queue_position.hpp"),("ordered scan of the queues","queue/any_queue_container.hpp: try_pop")],
(),["execution order under one worker","jobs executed while a queue is disabled"])

p("P11","Composite and stealing pools route jobs to the chosen pool and share load",
"A composite pool has a job executed by the sub-pool selected by its priority (1 for the first; any sub-pool when none is selected or the number is too high) unless an idle stealing sub-pool takes it, for every way of posting including the interruptible and callback ones. Stealing takes only queued jobs, lets an idle stealing sub-pool execute jobs queued for a busy one, never takes jobs of a single-thread or asio scheduler, prefers own jobs and then those of the first sub-pools, and never runs a job twice or drops one. Thread ids, queue sizes, diagnostics and executing something in all threads of the composite concern those of its sub-pools together.",
["schedules","configurations"],"all sub-pool layouts, priorities and posting functions; all interleavings of stealing",
"Tests use one fixed layout with stealing disabled or unobserved.",
["scheduler/composite_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/stealing_multiqueue_threadpool_scheduler.hpp"],
[("priority 1-based pool selection","scheduler/composite_threadpool_scheduler.hpp: post"),("steal from other queues when empty","scheduler/stealing_threadpool_scheduler.hpp: execute_one_job")],
(),["thread id of each job versus pool thread ids"])

p("P12","A continuation is called once, after all subtasks, with their results in order",
"A continuation created over any number of subtasks (tasks, continuation tasks, futures, or sequences of them) is called exactly once, after every subtask has finished, and receives for each subtask, in the position it was given, its value or the exception it reported through its result. Recursive task trees of any shape return the same result as their serial evaluation, on any scheduler and without deadlock, including pools of one thread. A failing subtask never prevents the continuation from being called, and each result object is delivered without being duplicated or leaked.",
["schedules","inputs","programs"],"all task trees, subtask result types, outcomes and interleavings",
"Tests compute a few Fibonacci trees; exceptions in arbitrary positions, future-based and sequence continuations under contention are hardly touched.",
["continuation_task.hpp","detail/continuation_impl.hpp"],
[("countdown of ready subtasks triggers on_done","detail/continuation_impl.hpp")],
(),["on_done call count and arguments"])

p("P13","Timed and any/all continuations call back once, in time or at the timeout",
"A continuation over futures or tasks given a timeout calls its handler exactly once: with all results if the subtasks finish first, otherwise (unless interrupted) not before the timeout, and with the results available by then and the others marked as not ready; callback continuations, for which a timeout has no effect, call it once everything is there. Waiting for all of several tasks yields every result in position; or one of the exceptions if some fail; waiting for any of them yields the result and index of one that has succeeded, at the latest when the first does, or all their exceptions if all fail. In both cases late and failing subtasks cause neither a second call nor a crash.",
["schedules","inputs"],"all orders of subtask completion relative to each other and to the timeout",
"The existing tests rely on sleeps and are excluded from the reliable list as flaky or crashing.",
["continuation_task.hpp","detail/continuation_impl.hpp","algorithm/any_of.hpp","algorithm/all_of.hpp"],
[("timeout checked by the finishing task or timer","detail/continuation_impl.hpp"),("all_of / any_of","algorithm/all_of.hpp, algorithm/any_of.hpp")],
(),["handler call count, time and content"])

p("P14","Parallel query algorithms return what their sequential counterpart returns",
"For every input range (including empty ranges, single elements, duplicates and all cutoff values from 1 to beyond the size) and pure predicate, the parallel search, find, count, comparison, mismatch, extremum, all/any/none and is-sorted/is-partitioned algorithms give the same result as their sequential standard counterpart: same truth value, same count, same (first or last as specified) position. The range is not modified and the predicate is called only on its elements. Different forms of calling the same algorithm (iterators, ranges, moved containers, results of other tasks) agree.",
["inputs","schedules"],"all input ranges, cutoffs, predicates and schedules",
"Tests use one or two fixed inputs per algorithm with one cutoff, so chunk boundary errors are invisible.",
["algorithm/parallel_count.hpp","algorithm/parallel_find_all.hpp","algorithm/parallel_search.hpp","algorithm/parallel_search_n.hpp","algorithm/parallel_find_end.hpp","algorithm/parallel_find_first_of.hpp","algorithm/parallel_adjacent_find.hpp","algorithm/parallel_mismatch.hpp","algorithm/parallel_equal.hpp","algorithm/parallel_lexicographical_compare.hpp","algorithm/parallel_extremum.hpp","algorithm/parallel_all_of.hpp","algorithm/parallel_any_of.hpp","algorithm/parallel_none_of.hpp","algorithm/parallel_is_sorted.hpp","algorithm/parallel_is_partitioned.hpp","algorithm/parallel_kmp.hpp"],
[("split at cutoff and merge of partial results","algorithm/parallel_*.hpp: operator() of the helper task")],
(),["result against std::"])

p("P15","Parallel modifying algorithms give the sequential result, touch nothing else",
"For every input and cutoff, the parallel for, for_each, transform (one or two inputs, grouped or not), copy, copy_if, move, fill, generate, iota, replace, remove_copy, reverse and swap_ranges algorithms leave exactly the output of their sequential standard counterpart, call the user's function exactly once per element (grouped ones on sub-ranges that partition the range), and write nothing outside the destination range. Different forms of calling the same algorithm agree, and those taking over a range return it with the expected content.",
["inputs","schedules"],"all input ranges, cutoffs, functors and schedules",
"Tests use one fixed range and cutoff and do not look beyond the destination.",
["algorithm/parallel_for.hpp","algorithm/parallel_for_each.hpp","algorithm/parallel_transform.hpp","algorithm/parallel_copy.hpp","algorithm/parallel_copy_if.hpp","algorithm/parallel_move.hpp","algorithm/parallel_fill.hpp","algorithm/parallel_generate.hpp","algorithm/parallel_iota.hpp","algorithm/parallel_replace.hpp","algorithm/parallel_replace_copy.hpp","algorithm/parallel_remove_copy.hpp","algorithm/parallel_reverse.hpp","algorithm/parallel_swap_ranges.hpp","algorithm/parallel_grouped_for.hpp","algorithm/parallel_grouped_transform.hpp"],
[("split at cutoff","algorithm/parallel_*.hpp: operator() of the helper task")],
(),["destination content, guard elements and per-element call counts"])

p("P16","Parallel sorts order the range and keep every element, stably where promised",
"After any parallel sort (sort, stable sort, spreadsort, quicksort, in place or not, returning a new range or sorting a moved one) of any range with any strict weak order and cutoff, the range is sorted by the predicate and is a permutation of the input; stable variants additionally keep the relative order of equivalent elements. No element is lost or invented: move-only element types work where accepted and no element is used after being moved from. The sorted flag or predicate given is honoured for already sorted, reversed and all-equal inputs as well.",
["inputs","schedules"],"all ranges, orders, cutoffs and schedules",
"Tests sort fixed random, ascending and descending int arrays and check order only.",
["algorithm/parallel_sort.hpp","algorithm/parallel_sort_inplace.hpp","algorithm/parallel_quicksort.hpp","algorithm/parallel_merge.hpp","algorithm/detail/parallel_sort_helper.hpp","algorithm/parallel_placement.hpp"],
[("recursive split, sort at cutoff, parallel merge","algorithm/parallel_sort.hpp, parallel_sort_inplace.hpp")],
(),["sortedness, permutation by unique id, stability"])

p("P17","Parallel reductions and scans equal the sequential ones if associative",
"For every input, initial value and cutoff, the parallel reduce, inner product, partial sum, inclusive and exclusive scan and transform-scan algorithms give exactly the result of their sequential counterpart for any associative operation, commutative or not, with the initial value used exactly once where one is taken. The output range is completely written and nothing beyond it; the returned iterator or range is the documented one.",
["inputs","schedules"],"all ranges, associative operations, initial values, cutoffs, schedules",
"Tests use integer addition on one fixed range, which hides ordering mistakes and double use of the initial value.",
["algorithm/parallel_reduce.hpp","algorithm/parallel_inner_product.hpp","algorithm/parallel_partial_sum.hpp","algorithm/parallel_scan.hpp","algorithm/parallel_inclusive_scan.hpp","algorithm/parallel_exclusive_scan.hpp","algorithm/parallel_transform_inclusive_scan.hpp","algorithm/parallel_transform_exclusive_scan.hpp"],
[("ordered combination of chunk results","algorithm/parallel_scan.hpp, parallel_reduce.hpp")],
(),["result against std:: with string concatenation and matrix product"])

p("P18","Parallel partition, merge, selection and unique meet their standard contract",
"For every input and cutoff: partition, stable partition and partition_copy separate exactly the elements satisfying the predicate from the others, return the right boundary and keep relative order when stable; merge yields the sorted union; nth_element and partial_sort place the right elements at and before the position; unique leaves exactly the elements the standard one leaves and returns its end; group-by puts every element in the group of its key. No element is lost, duplicated or invented.",
["inputs","schedules"],"all ranges, predicates, positions, cutoffs and schedules",
"Tests use one random array per algorithm with a single cutoff and position.",
["algorithm/parallel_partition.hpp","algorithm/parallel_stable_partition.hpp","algorithm/parallel_partition_copy.hpp","algorithm/parallel_merge.hpp","algorithm/parallel_nth_element.hpp","algorithm/parallel_partial_sort.hpp","algorithm/parallel_unique.hpp","algorithm/parallel_group_by.hpp"],
[("chunk results combined by position","algorithm/parallel_partition.hpp, parallel_stable_partition.hpp, parallel_merge.hpp")],
(),["result against std:: and unique ids"])

p("P19","Composed tasks run each step once, in order, and hand the right result on",
"Chaining (then), conditional composition (if_then_else, if_else), parallel invocation of several tasks and nesting of any of these with other parallel algorithms execute each selected step exactly once, no other branch, only after the step it depends on has finished, and with that step's result or failure. The composed task finishes once, with the final result, on any scheduler and from within other tasks.",
["programs","schedules","inputs"],"all composition trees, branch conditions, outcomes and interleavings",
"Tests run a single two-step chain each.",
["algorithm/then.hpp","algorithm/if_then_else.hpp","algorithm/if_else.hpp","algorithm/invoke.hpp","algorithm/parallel_invoke.hpp"],
[("continuation chaining","algorithm/then.hpp, if_then_else.hpp, parallel_invoke.hpp")],
(),["step execution log and final result"])

p("P20","An exception in a parallel algorithm's user code reaches the caller; no hang",
"When the function, predicate, comparison or element operation given to any parallel algorithm throws, for one or several elements and whatever the chunk, the algorithm completes and its future or callback reports one of the exceptions thrown: it neither reports success, nor hangs, nor terminates the program. The scheduler stays usable and no element or task object is leaked.",
["inputs","schedules","fault_sequences"],"every throwing position and combination, each algorithm and cutoff",
"Only a few algorithms have a test with a throwing functor, always on one chunk.",
["continuation_task.hpp","algorithm/parallel_for.hpp","algorithm/parallel_reduce.hpp","algorithm/parallel_sort.hpp","algorithm/parallel_transform.hpp","post.hpp"],
[("exceptions captured in expected and forwarded by each level","continuation_task.hpp")],
(),["future or callback result","live object counts"])

p("P21","The asynchronous vector behaves as std::vector, with exact element lifetimes",
"For every sequence of operations (construction, element access, insertion and erasure anywhere, also of the vector's own elements, resizing, assignment, swap, moves, comparison, clearing and reuse), with or without a scheduler, the asynchronous vector, and its asynchronous factory, push_back, resize, reserve, shrink_to_fit and merge functions, hold the same elements as a standard vector subject to the same operations, with the same sizes, returned positions, comparisons and exceptions for out-of-range access, and a capacity not below the size. Each element is constructed once and destroyed exactly once, memory is obtained and released with the vector's allocator once, and never touched outside the live elements. An exception thrown by an element's constructor while a vector is constructed or grows (push_back, emplace_back, reserve, resize, the asynchronous factory) reaches the caller and leaves no element behind; the vector keeps its elements.",
["inputs","histories"],"all operation sequences, element types, sizes and cutoffs",
"Tests apply single operations to one fixed vector of trivial elements.",
["container/vector.hpp","container/algorithms.hpp","algorithm/parallel_placement.hpp"],
[("parallel placement and deletion of elements","algorithm/parallel_placement.hpp")],
(),["content against std::vector","live object registry"])

p("P22","Diagnostics account for every executed job once, with consistent times and flags",
"With diagnostics enabled, every job executed by a loggable scheduler appears exactly once under the name it was posted with, in the totals until they are cleared, with posted <= started <= finished times, and flagged failed exactly if it threw and interrupted exactly if it was interrupted. Currently-running diagnostics list only running jobs; clearing removes only what was there; registering jobs, reading and clearing may be done concurrently. Summaries computed from them have the correct counts, minima, maxima, averages and totals, and formatting shows each of them.",
["schedules","histories"],"all interleavings of executing, reading and clearing, on all schedulers; all outcomes",
"Tests check that some entries exist after a fixed run.",
["diagnostics/diagnostics_table.hpp","diagnostics/any_loggable.hpp","diagnostics/default_loggable_job.hpp","diagnostics/diagnostic_item.hpp","scheduler_diagnostics.hpp","diagnostics/html_formatter.hpp","diagnostics/formatter.hpp"],
[("table guarded by mutex, item added by job after execution","diagnostics/diagnostics_table.hpp")],
(),["get_diagnostics totals/current"])

p("P23","Notifications reach exactly the subscribers, once each, in their own thread",
"An event published on a notification topic is delivered exactly once to each callback subscribed to that event type and a matching topic at the time of publishing, in the thread of the subscribing servant (servants of single-thread schedulers, callbacks not throwing), in publication order per publisher, and to no one else. After unsubscribing, or after the subscriber's death, nothing more is delivered; subscribing again works, and subscription changes may race with publication. Topic matching follows the documented hierarchical and wildcard rules, being reflexive.",
["schedules","histories","inputs"],"all histories of subscribe, unsubscribe and publish from several threads; all topics",
"Tests publish a few events in a fixed order, and the concurrent test is excluded as flaky.",
["notification/local_subscription.hpp","notification/notification_proxy.hpp","notification/topics.hpp"],
[("per-scheduler subscription lists","notification/local_subscription.hpp")],
(),["delivered event log per subscriber"])

p("P24","Asio work and timer handlers run once, in the right thread, not before time",
"Work posted to an asio scheduler, alone or in a composite pool, runs exactly once in one of its threads. A wait on an asynchronous timer leads to exactly one callback (in the thread of the servant which waits, or in that of the timer's scheduler if the functor was given to the timer itself), not before the time requested, reporting expiry or cancellation truthfully. Cancelling, resetting or destroying a timer ends its pending waits promptly, a timer can be re-armed from its callback, and none of its callbacks is called after the death of the servant; timers and other work neither block nor lose each other.",
["schedules","histories","inputs"],"all durations, cancellation points and interleavings with other work",
"Tests start one timer and wait; cancellation races and several timers are not covered.",
["extensions/asio/asio_scheduler.hpp","extensions/asio/asio_deadline_timer.hpp"],
[("io_context per worker thread","extensions/asio/asio_scheduler.hpp"),("deadline timer servant","extensions/asio/asio_deadline_timer.hpp")],
(),["callback thread, time and error code"])

p("P25","TCP-distributed tasks run once and their results reach the right caller",
"Serializable tasks handed to a TCP job server are each executed exactly once by one connected client and their result, or exception, is delivered exactly once to the continuation or future of the very task, whatever the number of clients, worker threads, payload sizes and interleaving, and locally executed or stolen tasks alike. Clients connecting late, having no work or disconnecting idle do not lose tasks, and shutting down neither hangs nor crashes. The wire format round-trips requests and responses exactly.",
["schedules","inputs","configurations"],"all task mixes, payloads, client counts and connection orders over loopback",
"Only examples use TCP distribution; the test suite serializes a sort task in a file stream at most.",
["scheduler/tcp/simple_tcp_client.hpp","scheduler/tcp/tcp_server_scheduler.hpp","scheduler/tcp/detail/job_server.hpp","scheduler/tcp/detail/server_connection.hpp","scheduler/tcp/detail/asio_comm_server.hpp","any_serializable.hpp"],
[("task id correlates request and response","scheduler/tcp/detail/job_server.hpp")],
(),["execution log and continuation results"])

p("P26","Thread ids and per-thread functions cover each worker exactly once",
"The thread ids a scheduler reports are exactly those of its worker threads, as many as it was created with, and jobs run only in them. A function to be executed in all threads is executed exactly once in each worker thread and the returned futures all become ready with its outcome. The name and the processors given to a scheduler reach each of its threads in order. Schedulers named, bound to processors, nested in one another or with any cpu load policy keep executing all jobs, and none of their threads outlives them.",
["schedules","configurations"],"all schedulers, thread counts, load at the time of the call",
"The test uses idle pools of a few threads and does not check once-per-thread under load.",
["scheduler/threadpool_scheduler.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","scheduler/composite_threadpool_scheduler.hpp","scheduler/io_threadpool_scheduler.hpp","extensions/asio/asio_scheduler.hpp","scheduler/detail/scheduler_helpers.hpp"],
[("private queue per worker","scheduler/threadpool_scheduler.hpp: execute_in_all_threads")],
(),["thread ids seen by the function"])

p("P27","The io pool grows on demand within bounds and shrinks without losing jobs",
"An io pool never runs more threads than its maximum and always keeps its minimum; when all threads are blocked, jobs are waiting and the maximum is not reached, posting adds a thread (the queue must report its size). Threads above the minimum end once there is nothing left to do and a later load makes the pool grow again. No job is lost, delayed forever or run twice in any growth, shrink, interruption or shutdown interleaving.",
["schedules","configurations"],"all load histories and minimum/maximum settings",
"The only test posts one burst of sleeping jobs.",
["scheduler/io_threadpool_scheduler.hpp"],
[("thread created when posting while all are busy","scheduler/io_threadpool_scheduler.hpp: post")],
(),["number of live workers, jobs running at once"])

p("P28","The library is free of data races and of lock-order deadlocks",
"Used as documented, no two threads of the library access the same memory location without synchronisation when one of them writes, in any scheduler, queue, servant, callback, interruption, continuation, diagnostics, notification, timer or container operation, and no combination of such operations deadlocks. Everything a task wrote is visible to its callback, to the continuation fed by it and to the holder of its future.",
["schedules"],"all interleavings of all the concurrent workloads of this file",
"The tests are built without any race detector and mostly run uncontended.",
["scheduler/threadpool_scheduler.hpp","scheduler/single_thread_scheduler.hpp","queue/lockfree_queue.hpp","queue/any_queue_container.hpp","continuation_task.hpp","detail/continuation_impl.hpp","trackable_servant.hpp","diagnostics/diagnostics_table.hpp","notification/local_subscription.hpp"],
[("mutexes, atomics and posting instead of sharing","throughout")],
(),["ThreadSanitizer happens-before analysis of every access"])

p("P29","Tasks and results are destroyed exactly once and never used afterwards",
"Every task, callback, argument and result object handed to the library, and every object it creates on the way, is destroyed exactly once, not used after being destroyed or moved from, and released when the operation or the scheduler ends, on success, failure, interruption and shutdown paths alike, for move-only types too. No operation reads or writes outside live memory or has undefined behaviour.",
["inputs","schedules","fault_sequences"],"all workloads of this file with every outcome",
"The tests do not count objects and run without address, leak or undefined-behaviour checking.",
["any_scheduler.hpp","post.hpp","detail/move_bind.hpp","queue/lockfree_queue.hpp","continuation_task.hpp","callable_any.hpp"],
[("type-erased owning job objects","job_traits.hpp, callable_any.hpp")],
(),["AddressSanitizer, LeakSanitizer, UBSan","live object registry"])

for x in P:
    for q in x["anchors"]["files"]: pass
    print(json.dumps(x))
