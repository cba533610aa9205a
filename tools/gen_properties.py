#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=hook)))

S = "schedules"
p("C01", "Every submitted operation is executed exactly once",
  "Every operation submitted with async() to a serial, parallel, global or main queue is executed exactly once as long as threads keep getting scheduled; it is never lost, duplicated or left stranded in an otherwise idle system. This holds for concurrent submitters, for submissions made from within a running operation, and for operations still pending when the last handle to their queue is dropped.",
  [S, "programs"], "all interleavings of submitters, workers, queue manager and handle owners; small programs of async() calls and handle drops",
  "Unit tests submit from one thread and see one OS schedule each; lost wake-ups between the emptiness test of a submitter and a drain or an expiring worker need a specific interleaving.",
  ["src/naive/naive_operation_queue.cpp", "src/naive/naive_threadpool.cpp", "src/naive/naive_semaphore.cpp", "src/naive/naive_manual_thread.cpp", "src/naive/naive_parallel_queue.cpp"],
  [("notify only when the pending list was empty; re-notify after a partial drain", "src/naive/naive_operation_queue.cpp:async_unsafe/drain"),
   ("count released after enqueue, waiter registers before re-testing", "src/naive/naive_semaphore.cpp"),
   ("expiring worker re-checks for work", "src/naive/naive_threadpool.cpp:worker::run")],
  [("m_jobs", "operations not yet completed", "operation_queue"), ("m_operations_counter", "operations queued in the pool", "threadpool::data")],
  ["execution counter per submitted operation once the system is quiescent"])
p("C02", "Operations of one serial queue never overlap",
  "No two operations submitted to the same serial queue ever execute at the same time, whichever thread or pool executes them and however they were submitted (async, apply, after or through a group).",
  [S], "all interleavings of several submitters with a pool of several worker threads",
  "Tests observe overlap only if the OS happens to schedule two drains at once.",
  ["src/naive/naive_operation_queue.cpp", "src/naive/naive_serial_queue.cpp", "src/qt5/qt5_serial_queue.cpp"],
  [("at most one outstanding drain notification while jobs are pending", "src/naive/naive_operation_queue.cpp"), ("finished job stays in the list until after it ran", "deferred_pop")],
  [("m_jobs", "pending list, front is the running one", "operation_queue")], ["begin/end of every operation"])
p("C03", "Serial queues execute in submission order",
  "Operations of one serial queue start in the order in which their submissions happened: if one submission returned before another began, the earlier one runs first, and each thread's own submissions keep their order. Everything an operation wrote is visible to the following one without further synchronisation.",
  [S, "programs"], "all interleavings of submitters and drains, including bursts larger than one drain batch and submissions from running operations",
  "Order tests run with a single submitter and one schedule; visibility on x86 hides missing synchronisation.",
  ["src/naive/naive_operation_queue.cpp", "src/naive/naive_manual_thread.cpp"],
  [("FIFO list guarded by one lock, drained front to back", "src/naive/naive_operation_queue.cpp:drain")], [], ["start order vs. submission order; race detector on shared payload"])
p("C04", "apply() runs every index exactly once and returns afterwards",
  "queue::apply(n, op) invokes op exactly once for every index 0..n-1 and no other index, and returns only after all invocations completed, with their effects visible to the caller. apply(0) returns immediately without any invocation.",
  [S, "inputs"], "all interleavings for small n, serial, parallel and waitable queues, several concurrent apply() calls",
  "The tests use one n and check a counter after the fact; early returns need the last two iterations to race with the waiter.",
  ["src/naive/naive_parallel_queue.cpp", "src/naive/naive_serial_queue.cpp", "src/naive/naive_operations.cpp", "src/naive/naive_consumable.cpp", "src/waitable_queue.cpp"],
  [("resource counter completing a barrier on its last release", "src/naive/naive_consumable.cpp")], [("m_resources", "iterations not completed", "consumable")], ["invocation log vs. return of apply"])
p("C05", "Delayed operations run once, on their queue and never early",
  "An operation submitted with after(delay) is executed exactly once, no sooner than delay after the call and with the guarantees of its target queue; everything allocated for the delay is released once it ran. Setting the system's clock has no influence on the delay.",
  [S, "inputs"], "all interleavings and orderings of timers for small sets of delays (including zero), serial, parallel and waitable queues",
  "Wall-clock tests cannot control timer order, and leaks are not observed.",
  ["src/naive/naive_operations.cpp", "src/naive/naive_timer.cpp", "src/naive/naive_serial_queue.cpp", "src/naive/naive_parallel_queue.cpp", "src/waitable_queue.cpp"],
  [("self-owned single-shot timer cancelled by its own handler", "delayed_operation")], [], ["execution time in virtual time, execution count, destruction of the operation"])
p("C06", "group::wait returns true only after all submitted work finished",
  "group::wait returns true only when every operation submitted to the group before the wait began has finished executing, and their effects are visible to the waiter. It returns false only after its timeout has elapsed with work outstanding, and then at once, an unlimited wait returns once the work is finished, and this remains true for every later batch of the same group and for several concurrent waiters.",
  [S, "histories"], "all interleavings of submitters, workers and waiters; sequences of batches with waits and timeouts in between",
  "Tests wait once on one batch; re-use after earlier operations completed, timed-out waits and concurrent waiters need specific histories and interleavings.",
  ["src/naive/naive_group.cpp", "src/naive/naive_consumable.cpp", "src/lightweight_barrier.cpp", "src/group.cpp"],
  [("chain of resource counters swapped on every wait", "src/naive/naive_group.cpp:wait")], [("m_consumable", "current batch", "group_impl")], ["finished flags of all earlier submissions when wait returns"])
p("C07", "group::notify fires once, after the group's work completed",
  "An operation registered with group::notify is executed exactly once, on the queue it was registered for, and only after every operation submitted to the group before the notify call has finished; for an empty group it is submitted immediately.",
  [S, "histories"], "all interleavings of group operations, notify calls and waits, including empty and re-used groups",
  "The tests' operations finish quickly compared with thread start-up, so a notification that does not wait goes unnoticed.",
  ["src/naive/naive_group.cpp", "src/group.cpp"], [("helper operation waiting for the group", "src/naive/naive_group.cpp:notify")], [], ["order of notification and group operations"])
p("C08", "Blocking inside pool operations never stalls the system",
  "Operations that block in apply(), group::wait(), timers or notifiers never prevent other submitted work from making progress: nested blocking calls on parallel queues always complete even if every thread of the pool is blocked. While the library blocks a pool thread it tells that thread's pool exactly once per block and once per unblock, on every path including timeouts.",
  [S, "configurations"], "all interleavings with a pool limited to one or two threads, nesting depths 1..3, timeouts",
  "Test machines have many cores, so the pool practically never runs out of threads.",
  ["src/naive/naive_threadpool.cpp", "src/naive/naive_consumable.cpp", "include/xdispatch/backend_naive_ithreadpool.h", "src/naive/naive_timer.cpp"],
  [("block_scope raises the thread limit while blocked", "ithreadpool::block_scope")], [("m_max_threads", "current thread limit", "threadpool::data")], ["completion of nested calls; balance of notifications on a custom pool"])
p("C09", "The thread pool keeps its thread limit and always recovers",
  "The global pool never executes more operations at the same time than its configured thread count plus the largest number of its threads that were blocked inside the library at the same time since it was last idle; only a thread that found new work while expiring may exceed this by one. Idle threads may expire at any moment and bursts may arrive at any moment, yet the pool never terminates the process, never corrupts its accounting and always has a thread for pending work: an operation only waits while as many others as the limit allows are being executed.",
  [S], "all interleavings of submitters, workers, idle expiry and block notifications for small thread limits",
  "Idle expiry takes 30 seconds and no test waits for it; over-subscription needs two submitters racing for the last slot.",
  ["src/naive/naive_threadpool.cpp"], [("active/idle/max counters", "threadpool::schedule, worker::run")],
  [("m_active_threads", "running worker threads", "threadpool::data"), ("m_idle_threads", "workers waiting for work", "threadpool::data")], ["number of concurrently running operations; process termination"])
p("C10", "Pending work is picked up in priority order",
  "When a pool thread picks its next operation, it takes one of the highest priority among those whose submission had completed before, and operations of the same priority submitted one after the other by the same thread are picked up in that order.",
  [S, "inputs"], "all assignments of priorities to a small backlog, all interleavings of submitters with one worker",
  "The priority test is statistical and only checks that everything is executed.",
  ["src/naive/naive_threadpool.cpp", "src/qt5/qt5_threadpool.cpp", "src/backend.cpp"], [("one bucket per priority scanned from the highest", "threadpool::worker::run")], [], ["start order of a backlog"])
p("C11", "Barriers release every waiter exactly when completed",
  "wait() on a barrier returns true only once the barrier was completed, every current and later waiter is released by one completion, and has_passed()/was_completed() never reports completion early nor reverts. A wait with a timeout returns false only after the timeout elapsed without completion; setting the system's clock has no influence on it.",
  [S], "all interleavings of waiters, timed waiters, pollers and one or several completers, including weak compare-exchange failures",
  "Tests complete the barrier from one thread; first-waiter against completion races last a few instructions.",
  ["src/lightweight_barrier.cpp", "src/barrier_operation.cpp"], [("single atomic owner pointer", "src/lightweight_barrier.cpp")], [("m_owner", "none, waiter or completed", "lightweight_barrier")], ["return values and blocking of wait"])
p("C12", "No signal handler runs after disconnect returned",
  "Once disconnecting a handler (explicitly, by scope exit, by its manager or by destroying the signal) has returned, that handler is neither executing nor ever invoked again, for any number of concurrent disconnects and invocations on any queue type. Disconnecting from within the handler itself returns immediately, lets the calls already entered finish and prevents all others.",
  [S, "programs"], "all interleavings of emitters, handler executions on serial and parallel queues and one or more disconnecting threads, with queued invocations outstanding",
  "Tests disconnect once from one thread while the handler sleeps; concurrent or repeated disconnects are not exercised.",
  ["src/cancelable.cpp", "src/signals.cpp", "include/xdispatch/signals.h", "include/xdispatch/impl/cancelable.h"], [("cancelable entered around each invocation, disable waits for it", "src/cancelable.cpp")], [("m_active", "enabled, running or disabled", "cancelable")], ["handler begin/end vs. return of disconnect"])
p("C13", "With single updates every emit reaches every handler exactly once",
  "Every emit of a signal leads to exactly one invocation, with exactly the emitted values, of every handler connected at that time in single-updates mode. On a serial queue the invocations happen in emit order; chained and synchronous connections deliver within the emit.",
  [S, "programs"], "all interleavings of concurrent emitters with handlers on serial and parallel queues",
  "Tests emit from one thread and rarely have two invocations of one handler in flight at the same time.",
  ["include/xdispatch/signals.h", "src/signals.cpp", "src/cancelable.cpp"], [("one queued invocation per emit", "signal::operator()")], [("m_pending", "queued invocations", "connection_handler")], ["multiset and order of received values"])
p("C14", "Batched updates coalesce but never go missing",
  "In batch-updates mode at least one invocation of the handler starts after each emit began, so an emit is never left without a subsequent or concurrent-start notification. At most one invocation is pending at a time, values delivered are values of an actual emit, and the connection never gets stuck.",
  [S, "programs"], "all interleavings of emitters and handler executions, on serial and parallel queues",
  "The batch test uses a single emitter and one handler that blocks; a lost update requires the emit to fall between two steps of the invocation.",
  ["include/xdispatch/signals.h"], [("pending counter tested on emit and decremented before the handler runs", "signal::operator()")], [("m_pending", "queued invocations", "connection_handler")], ["invocations started after each emit"])
p("C15", "Connection handles report and own their connection faithfully",
  "connected(), the result of disconnect(), equality and is_connected_to() always agree with whether the handler is still attached to that signal, across any sequence of connect, disconnect, copy, move, assign, take, scope exit and manager operations. Disconnecting one connection never affects another, and a scoped connection disconnects exactly what it owns.",
  ["histories"], "all sequences of connection operations up to a bounded depth over two signals, two connections, scoped connections and a manager, against a reference model",
  "Tests exercise a handful of hand-picked sequences.",
  ["src/signals.cpp", "include/xdispatch/signals.h"], [("weak handler id plus weak reference to the list of connections", "connection")], [("m_id/m_parent", "identity of the connection", "connection")], ["return values and which handlers an emit reaches"])
p("C16", "A signal barrier delivers the values of the first raise",
  "signal_barrier::wait returns true only after the signal was raised following the construction of the barrier, and values() then returns the arguments of exactly one such raise and never changes. A wait that times out returns false and values() throws while there was no raise, for every position of raises relative to construction, waiting and destruction.",
  [S], "all interleavings of constructing, waiting, reading and destroying threads with one or two raising threads",
  "The tests raise from one thread well before or after the wait.",
  ["include/xdispatch/signals_barrier.h"], [("self-disconnecting handler storing the values before completing a barrier", "signal_barrier")], [("m_values", "values of the first raise", "signal_barrier")], ["values vs. raises"])
p("C17", "Signals and connections can be destroyed in any order",
  "Signals, connections, managers and handlers may be torn down in any order and from any thread, with invocations queued or running: nothing accesses destroyed objects, once the destruction of a signal returned its handlers are never invoked again (a handler which disconnected itself may still be finishing), and no combination of teardown, emit and disconnect, also from inside handlers, deadlocks unless the program itself waits in a cycle.",
  [S, "histories"], "all interleavings of teardown, emits, disconnects and running handlers; destruction orders of signal and connection objects",
  "Use-after-destruction is silent in the tests and needs a queued invocation outliving the signal.",
  ["src/signals.cpp", "include/xdispatch/signals.h"], [("handlers held by shared pointers and disabled on teardown", "src/signals.cpp")], [("m_parent", "shared list of the connections of the signal", "connection")], ["use-after-free detector, deadlock detector"])
p("C18", "Timers fire at their interval, never early and never doubled",
  "A resumed timer first fires no earlier than its delay and then at most once per interval on its target queue, a timer with zero interval fires exactly once per resume, and a timer that keeps running keeps firing. Suspending stops further rounds, and any balanced sequence of suspend and resume leaves exactly one schedule running. Setting the system's clock has no influence on a timer.",
  [S, "histories", "inputs"], "all sequences of resume, suspend, interval changes up to a bounded length at all positions relative to the timer's rounds, all interleavings",
  "Wall-clock tests use one interval and one suspend, with generous tolerances.",
  ["src/naive/naive_timer.cpp", "src/timer.cpp"], [("resume counter and self-rescheduling loop", "src/naive/naive_timer.cpp:resume")], [("m_running", "balance of resume and suspend", "timer_impl")], ["virtual-time log of handler invocations"])
p("C19", "Cancelling a timer or notifier stops its handler for good",
  "Once cancel() of a timer or socket notifier returned, its handler is not executing and is never invoked again, even if the object is resumed afterwards; cancelling from within the handler lets the current call finish. Cancelling concurrently from several threads or while a round is queued neither deadlocks nor touches released memory.",
  [S], "all interleavings of cancel calls, handler executions and rounds on serial and parallel queues",
  "Tests cancel once from one thread.",
  ["src/naive/naive_timer.cpp", "src/naive/naive_socket_notifier.cpp", "src/cancelable.cpp"], [("cancelable around every handler call", "src/cancelable.cpp")], [], ["handler begin/end vs. return of cancel"])
p("C20", "A resumed socket notifier reports readiness, and only readiness",
  "While a notifier is resumed, its handler is invoked on the target queue, with its socket and type, whenever the socket is ready, again as long as it stays ready and never two invocations at a time; it is never invoked for a socket that was not ready or for the other direction. Any valid socket can be monitored, whatever its number.",
  [S, "fault_sequences"], "all interleavings of readiness changes, handler executions, suspend and resume over a simulated select()",
  "The tests use one local socket pair, always with data available.",
  ["src/naive/naive_socket_notifier.cpp", "src/socket_notifier.cpp"], [("select loop with one handler round-trip per readiness", "src/naive/naive_socket_notifier.cpp:resume")], [("m_worker_cookie", "generation of the active loop", "socket_notifier_impl")], ["handler invocations vs. simulated socket state"])
p("C21", "Suspended or failing sockets neither fire nor spin",
  "After suspend() at most the round already in flight fires; any balanced sequence of suspend and resume leaves exactly one active monitor, and dropping the last handle of a suspended notifier releases it. Interrupted or failing waits are survived, and a socket that was closed ends monitoring instead of spinning.",
  [S, "fault_sequences", "histories"], "all sequences of suspend and resume with select() answering ready, timeout, EINTR or EBADF at every position",
  "No test injects select() errors or closes a monitored socket.",
  ["src/naive/naive_socket_notifier.cpp"], [("worker cookie bumped on suspend", "src/naive/naive_socket_notifier.cpp")], [("m_resume_counter", "balance of resume and suspend", "socket_notifier_impl")], ["number of monitor loops, select calls, handler invocations"])
p("C22", "A waitable queue is serial and waiting on it cannot deadlock",
  "Operations of a waitable queue run exactly once, one at a time and in submission order, on the inner queue or on a waiting thread. wait_for_one() and wait_for_all() return only once a previously unwaited operation, respectively everything queued before the call, has completed (at once if nothing was queued), and as long as they are not called from an operation of the queue itself they never deadlock, even if the inner queue never gets a thread.",
  [S, "programs"], "all interleavings of submitters, waiters and inner-queue workers, with serial, parallel and starved inner queues",
  "Tests have one waiter and a live inner queue.",
  ["src/waitable_queue.cpp"], [("active flag, completion counter and direct execution by the waiter", "src/waitable_queue.cpp")], [("m_active/m_completed", "drain in progress, completions not waited for", "waitable_queue_operation")], ["begin/end log vs. returns of waits"])
p("C23", "Operations, queues and pools are released exactly when unused",
  "Every operation object is destroyed exactly once, after its execution and without being kept alive by an idle system; a queue, group or pool whose last handle is dropped is released once its pending work is done, a timer once it is suspended, cancelled or its single shot fired. The last handle may be dropped at any time from anywhere, including from an operation running on that very queue or pool, without deadlock or access to released memory, and a pool is never destroyed on one of its own threads by dropping a queue.",
  [S, "histories"], "all interleavings of dropping handles with pending, running and finishing operations",
  "Leaks and use-after-free windows of a few instructions are invisible to the tests.",
  ["src/naive/naive_operation_queue.cpp", "src/naive/naive_operation_queue_manager.cpp", "src/naive/naive_parallel_queue.cpp", "src/naive/naive_threadpool.cpp", "src/naive/naive_operations.cpp"],
  [("manager thread owning queues and pools until detached", "src/naive/naive_operation_queue_manager.cpp"), ("destructor waiting for an active drain", "operation_queue::~operation_queue")],
  [("m_active_drain", "drain in progress", "operation_queue")], ["destructor log, use-after-free detector"])
p("C24", "The main queue runs on the thread calling exec()",
  "Operations of the main queue are executed only by the thread that called exec(), one at a time in submission order, whether submitted before or during exec() and from any thread; every handle obtained for the main queue denotes the same queue.",
  [S], "all interleavings of submitters with the thread entering and running exec()",
  "Every test submits and runs under one schedule.",
  ["src/naive/naive_manual_thread.cpp", "src/naive/naive_serial_queue.cpp", "src/backend.cpp"], [("condition variable guarded work list", "src/naive/naive_manual_thread.cpp")], [("m_queued_ops", "operations waiting for exec", "manual_thread")], ["executing thread and order"])
p("C25", "Hand-offs through the library publish memory",
  "Whatever a thread wrote before submitting an operation is visible inside it, and whatever an operation, handler or iteration wrote is visible to whoever learned of its completion through the library (barrier, group wait or notify, apply, wait_for_*, disconnect, cancel). The library's own state is free of data races for every use from several threads.",
  [S], "all interleavings and happens-before relations of the explored programs under the C++ memory model's release/acquire rules",
  "x86 hides weakened memory orders and the tests run without a race detector.",
  ["src/lightweight_barrier.cpp", "src/naive/naive_semaphore.cpp", "src/naive/naive_consumable.cpp", "src/cancelable.cpp", "src/naive/3rdparty/concurrentqueue.h"], [("release/acquire on barrier owner, counters and locks", "src/lightweight_barrier.cpp")], [], ["vector-clock race detection on payload and library state"])
p("C26", "The pool's lock-free queue neither loses nor duplicates elements",
  "Every element enqueued into the concurrent queue is dequeued exactly once over all consumers, elements of one producer are dequeued in order by a single consumer, and a dequeue that starts after a completed enqueue of a non-exhausted queue eventually succeeds. No element is read before its enqueue completed its construction nor after its removal.",
  [S], "all interleavings, at the granularity of single atomic accesses, of two or three producers and consumers with a few elements each, including block boundaries",
  "The upstream tests are not part of the repository and sample schedules.",
  ["src/naive/3rdparty/concurrentqueue.h", "src/naive/naive_concurrentqueue.h"], [("per-producer block lists, head/tail/overcommit indices", "concurrentqueue.h")], [], ["multiset and per-producer order of dequeued elements"])
p("C27", "Mixing backends is rejected, matching backends accepted",
  "Combining a queue with a timer or notifier of a different backend, or with a group of a different backend other than the naive one, is rejected by throwing std::logic_error before any operation is accepted, and every other combination works; naive groups accept any queue. A rejected object leaves no effect behind. Queues report the backend they were created for, and timers and notifiers created for a queue match it.",
  ["configurations"], "all pairs of backend types over queue, timer, notifier and group",
  "Tests contain one mixing case at most and release and debug behaviour differ.",
  ["src/trace_utils.cpp", "src/timer.cpp", "src/socket_notifier.cpp", "src/group.cpp", "src/backend.cpp"], [("assert_same_backend", "src/trace_utils.cpp")], [], ["exception type per combination"])
p("C28", "The Qt5 adaptors keep the queue guarantees",
  "Queues created on a QThread or QThreadPool run each submitted operation exactly once on that thread or pool, serial ones in order and without overlap, with the pool priority increasing with queue_priority. A pool makes up for threads blocked by the library, so what they wait for can run even on a pool of a single thread, and returns to its size afterwards. Dropping such a queue anywhere, also in its own last operation, is safe. Connections registered with a QObject are closed when that object is destroyed.",
  [S, "configurations"], "all interleavings over a model of QThreadPool and the Qt event queue, all priorities",
  "The Qt tests exercise one queue with one schedule.",
  ["src/qt5/qt5_serial_queue.cpp", "src/qt5/qt5_threadpool.cpp", "src/qt5/qt5_parallel_queue.cpp", "src/qt5/qt5_signals.cpp"], [("posted events and runnables wrapping operations", "src/qt5")], [], ["execution log per thread; reserve/release balance"])
p("C29", "Skipping a signal's queued calls leaves it usable",
  "skip_all() suppresses handler invocations that were queued before it and have not started; an invocation already running completes, skip_all() never deadlocks with it, and an emit after skip_all() (every concurrent call of it) returned is delivered to every connected handler again.",
  [S, "histories"], "all interleavings of skip_all with emits, queued and running invocations in both notification modes",
  "No test emits after skip_all.",
  ["src/signals.cpp", "include/xdispatch/signals.h"], [("disable on every handler", "signal_p::skip_all")], [], ["invocations before and after skip_all"])
p("C30", "Work that never ceases does not keep other work from starting",
  "An operation submitted to a queue starts after a bounded number of further operations on the thread or pool it needs, even if other queues, submitting threads, timers or ready sockets of the same or a lower priority keep adding work there without end. A serial queue gives up its thread after a limited number of operations, and the pool gives each thread that submits work its turn.",
  ["programs", "configurations"], "self-perpetuating serial and parallel queues, flooding threads, over-busy timers and always-ready sockets against every way to submit an operation, on the pool, a shared thread and the main queue",
  "The tests' workloads end, so everything gets executed eventually; the pool's lock-free queue preferred one producer as long as it had anything to offer.",
  ["src/naive/naive_operation_queue.cpp", "src/naive/naive_threadpool.cpp", "src/naive/3rdparty/concurrentqueue.h", "src/naive/naive_manual_thread.cpp", "src/naive/naive_timer.cpp", "src/naive/naive_socket_notifier.cpp"],
  [("a drain executes a limited number of operations", "src/naive/naive_operation_queue.cpp:drain"), ("consumers take turns between the producing threads", "src/naive/naive_threadpool.cpp:worker::run")],
  [("m_jobs", "pending operations of one queue", "operation_queue"), ("m_operations", "pending work of the pool by priority", "threadpool::data")], ["operations started between the submission and the start of another one"])
p("C31", "The pool copes with threads that cannot be created",
  "If the system refuses to create a thread, nothing that was submitted is lost, executed twice or out of order: the threads there are execute it. A submission only fails, with std::system_error, if the pool is left without any thread, and blocking inside of the library never fails. The next submission tries again, and as soon as threads can be created, everything pending is executed and the pool uses as many threads as its limit allows, not fewer nor more.",
  ["fault_sequences", S], "every failing thread creation (any one, several in a row, from the first use on, after all threads expired) during every kind of submission, blocking calls, timers, and two submitters, with all interleavings up to the bound",
  "No test makes creating a thread fail.",
  ["src/naive/naive_threadpool.cpp", "src/naive/naive_thread.cpp", "src/naive/naive_operation_queue_manager.cpp"],
  [("the slot of a thread is given back if it cannot be created", "src/naive/naive_threadpool.cpp:schedule")],
  [("m_active_threads", "threads there are or about to be created", "threadpool::data"), ("m_max_threads", "limit of threads", "threadpool::data")], ["executions per operation, exceptions of submissions, operations executed at the same time"])
p("C32", "The library stays usable until the process has ended",
  "exit() and the destructors of static objects do not end the use of the library: global_queue(), main_queue(), and queues, groups, timers, notifiers and signals created earlier or only now may be used by destructors of static objects, whether constructed before or after the library was used first, by destructors of thread local objects, and by operations still executing on the pool's threads meanwhile. An operation or a handler of a timer, notifier, signal or group may end the process itself, on the main queue or elsewhere. Nothing of it accesses anything destroyed, crashes, hangs or asserts, and what is submitted while the process exits is executed like at any other time as long as the process lives. Static objects owning queues, groups, timers, notifiers or signals can be destroyed with work pending or running.",
  ["crash_points", S], "exit at any point: operations of the pool and destructors of static objects use any part of the library while the process exits, or for the first time; an operation or a handler of any kind ends the process; static objects of the library's types are destroyed with work pending; all interleavings of the exit with the other threads up to the bound",
  "Tests return from main() with everything idle, and the crash of a thread that still runs then is rare and not attributed to a test.",
  ["src/backend.cpp", "include/xdispatch/impl/ibackend.h", "src/naive/naive_serial_queue.cpp", "src/naive/naive_operation_queue_manager.cpp", "src/naive/naive_threadpool.cpp", "src/cancelable.cpp"],
  [("queues and backends are never destroyed", "src/backend.cpp:main_queue")],
  [("s_instance", "global and main queues, backends, operation queue manager, global threadpool", "static")], ["accesses to destroyed objects, operations executed at exit"])
p("C33", "Handles of queues, groups, timers and notifiers are values sharing one object",
  "Copying, moving or assigning a queue, group, timer or socket_notifier (also to itself) makes another handle of the same object and never affects the object or other handles. Whatever is done by one handle is observed by all handles of the object and by no handle of another: operations stay in order across the handles of a queue, a group waits for the work submitted by any of its handles, timers and notifiers are resumed, suspended and cancelled by any of theirs. Handles of the same queue compare equal, of different queues unequal whatever their labels are; label(), target_queue(), socket() and type() are kept. main_queue() and global_queue(priority) return a handle of the same queue to every thread at any time, a different queue for each priority (DEFAULT and UTILITY share one), also if several threads are the first to ask. What was submitted is executed after the last handle is gone.",
  ["histories", S], "all histories of copies, moves, assignments, creations, destructions and uses over three handles up to the depth, compared with a model; all interleavings of two threads asking for the queues of the process first",
  "Tests copy handles once and in few ways, and never compare different queues.",
  ["include/xdispatch/queue.h", "include/xdispatch/group.h", "include/xdispatch/timer.h", "include/xdispatch/socket_notifier.h", "src/queue.cpp", "src/backend.cpp"],
  [("equality of queues", "src/queue.cpp:queue::operator==")],
  [("m_impl", "the object a handle refers to", "queue, group, timer, socket_notifier")], ["operations per queue and their order, results of wait(0), handler invocations, equality, labels"])
p("C34", "Environment variables add messages or set the number of threads, nothing else",
  "With XDISPATCH2_TRACE=1 the library writes messages to std::cerr: each is one line of its own starting with '[xdispatch2] ', whichever threads write at the same time, and everything else behaves as without (operations are executed exactly once, in order, nothing deadlocks or uses released objects). With any other value, or unset, ordinary use writes nothing. XDISPATCH2_THREAD_COUNT set to a positive number replaces the number of cpus when determining how many operations of the pool execute at the same time, however large it is; any other value is ignored. Neither keeps operations from being executed.",
  ["inputs", S], "all values out of a table of valid, invalid and extreme ones; with messages enabled every pair of 12 parts of the library in use by two threads, all interleavings up to the bound",
  "Tests run with neither of the variables set.",
  ["src/trace_utils.h", "src/trace_utils.cpp", "src/thread_utils.cpp", "src/naive/naive_threadpool.cpp"],
  [("messages are whole lines", "src/trace_utils.h:trace_stream"), ("limit of threads", "src/naive/naive_threadpool.cpp:threadpool::threadpool")],
  [("m_max_threads", "limit of threads", "threadpool::data")], ["text written, operations executed, operations executing at the same time"])
p("C35", "Destructors of captured objects may use the library",
  "Operations and handlers, and with them the objects they captured, are destroyed without any lock of the library being held, however they end: after being executed (by a queue of any kind, by whoever waits for a waitable queue, by exec()), when a handler is replaced, disconnected, or its timer, notifier or signal is destroyed. The destructors of captured objects may therefore use the very object the operation belonged to - submit to the queue or group, wait for other operations unless on the serial queue itself, suspend, resume, cancel a timer or notifier or set its handler, emit, connect, disconnect or reset connections - also by waiting for another thread doing so. Nothing deadlocks, and what they submit is executed exactly once.",
  ["concurrency", "resources", S], "every way an operation or handler ends x every use of the object by the destructor, all interleavings up to the bound",
  "Tests capture plain values only; deadlocks depend on who drops the last reference.",
  ["src/waitable_queue.cpp", "src/naive/naive_operation_queue.cpp", "src/naive/naive_timer.cpp", "src/naive/naive_socket_notifier.cpp", "src/signals.cpp", "include/xdispatch/signals.h"],
  [("operations released unlocked", "src/naive/naive_operation_queue.cpp:operation_queue::drain"), ("same for waitable queues", "src/waitable_queue.cpp:waitable_queue_operation::drain_one"), ("handlers released unlocked", "src/naive/naive_timer.cpp:timer_impl::handler")],
  [("m_CS", "locks never held while releasing operations", "operation_queue, waitable_queue_operation, timer_impl, socket_notifier_impl, connection_list, connection_manager")],
  ["destructors completed, operations executed, deadlocks"])
p("C36", "Exceptions cost only the operation that threw",
  "An exception (derived from std::exception) leaving an operation or handler is never swallowed: it reaches whoever runs it - the caller of exec() for the main queue, of wait_for_one(), wait_for_all() or apply() for operations of a waitable queue executed there, the emitter for synchronous handlers, the threads of a pool provided by the user - and ends the process by std::terminate() on the library's own threads. When it is caught, everything else goes on: all other operations are executed exactly once and in order (by calling exec() again), group::wait(), notifications and apply() complete (apply() not before all iterations were executed), timers and notifiers keep firing until cancelled, signals and waitable queues stay usable by all threads and disconnecting does not block.",
  ["faults", "concurrency", S], "every subset of operations throwing x queue kinds x ways to submit and to wait, all interleavings up to the bound",
  "Tests do not throw from operations.",
  ["src/naive/naive_operation_queue.cpp", "src/naive/naive_manual_thread.cpp", "src/naive/naive_operations.cpp", "src/naive/naive_timer.cpp", "src/naive/naive_socket_notifier.cpp", "src/waitable_queue.cpp", "include/xdispatch/signals.h", "src/cancelable.cpp", "src/naive/naive_threadpool.cpp"],
  [("drain goes on", "src/naive/naive_operation_queue.cpp:operation_queue::drain"), ("exec() keeps what remains", "src/naive/naive_manual_thread.cpp:manual_thread::run"), ("resources are consumed", "src/naive/naive_operations.cpp:consume_scope")],
  [("m_jobs", "remaining operations", "operation_queue"), ("m_active", "being executed", "waitable_queue_operation"), ("m_queued_ops", "operations for exec()", "manual_thread")],
  ["operations executed, exceptions caught, waits returning, termination"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
