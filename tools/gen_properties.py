#!/usr/bin/env python3
# Writes properties.jsonl (one place to edit the property texts).
import json, os
I = "include/boost/thread/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("M01", "Mutexes exclude, grant when free, and publish the critical section",
 "At any moment at most one thread owns a mutex, timed_mutex, recursive_mutex or recursive_timed_mutex (a recursive owner releases it only after as many unlocks as locks), and everything done before an unlock happens-before everything done after the next successful lock, try_lock or timed lock. "
 "try_lock and timed locks return true exactly when they acquired the mutex, try_lock never fails on a free mutex, and a mutex that becomes free is granted to a waiting lock() so that no waiter is stranded. "
 "A timed lock that reports failure leaves the mutex untouched and did not report it while the mutex was free throughout.",
 ["schedules", "programs"], "for every program of lock/try_lock/timed lock/unlock operations by any number of threads on any of the four mutex types, under every interleaving and every legal spurious wakeup",
 "Existing tests lock a mutex from two or three threads with sleeps; they see a handful of interleavings and no spurious wakeups, and never observe memory ordering.",
 [I+"pthread/mutex.hpp", I+"pthread/recursive_mutex.hpp", I+"pthread/pthread_mutex_scoped_lock.hpp", I+"pthread/pthread_helpers.hpp"],
 [("mutex::lock/try_lock/unlock", I+"pthread/mutex.hpp"), ("timed_mutex (mutex+cond+is_locked)", I+"pthread/mutex.hpp"), ("recursive_mutex owner/count", I+"pthread/recursive_mutex.hpp")],
 [("is_locked / count / owner", "who holds the lock", I+"pthread/mutex.hpp")])

prop("M02", "Shared/upgrade mutexes keep reader-writer-upgrade rules and never strand",
 "A shared_mutex (both implementations; also upgrade_mutex) is at any moment owned either by one exclusive owner, or by any number of shared owners plus at most one upgrade owner; a success return means exactly that ownership is held, a failure return means ownership is unchanged, and ownership hand-over orders memory like a mutex. "
 "Atomic conversions (upgrade to exclusive, exclusive to upgrade or shared, upgrade to shared, and the try/timed forms) never let another thread take exclusive ownership in between. "
 "Whenever ownership would permit a blocked lock operation and no writer is entitled to go first, that operation proceeds: no reader, writer or upgrader stays blocked once the holders it waits for are gone, also after another waiter's timed attempt gave up.",
 ["schedules", "programs", "histories"], "for every history of shared, exclusive and upgrade lock, try, timed, unlock and conversion operations by any number of threads, under every interleaving, timeout point and spurious wakeup",
 "Tests exercise a few fixed reader/writer line-ups with sleeps; stranded waiters and broken conversions need particular histories of timeouts, conversions and queued writers.",
 [I+"pthread/shared_mutex.hpp", I+"v2/shared_mutex.hpp", I+"shared_mutex.hpp"],
 [("shared_mutex::state_data and the three condition variables", I+"pthread/shared_mutex.hpp"), ("v2 state_ word with gate1_/gate2_", I+"v2/shared_mutex.hpp"), ("unlock_*_and_lock_* conversions", I+"pthread/shared_mutex.hpp")],
 [("state", "exclusive / shared_count / upgrade / exclusive_waiting_blocked", I+"pthread/shared_mutex.hpp")])

prop("M03", "Multi-lock functions are deadlock-free and all-or-nothing",
 "boost::lock over two to five lockables or an iterator range returns with every one locked exactly once by the caller, and threads calling it on overlapping sets in any argument order never deadlock. "
 "boost::try_lock locks all and returns -1 (or end), or returns the index (iterator) of a lockable whose try_lock failed and leaves every one as it found it, without blocking. "
 "If a lockable throws, everything the call had locked is unlocked again and the exception propagates.",
 ["schedules", "programs", "fault_sequences"], "for every set and order of 2..5 lockables (or range) of every lockable kind, from any number of threads, under every interleaving and every throwing lock/try_lock call",
 "Tests call lock/try_lock on a few fixed states from one or two threads; deadlock freedom and roll-back depend on the interleaving and on which lockable fails.",
 [I+"lock_algorithms.hpp", I+"lock_factories.hpp", I+"lock_types.hpp"],
 [("lock_helper / lock_impl rotation", I+"lock_algorithms.hpp"), ("try_lock_internal, range_lock_guard", I+"lock_algorithms.hpp")])

prop("M04", "Lock objects own exactly what they report and release it exactly once",
 "For every sequence of operations on lock objects (unique_lock, shared_lock, upgrade_lock, upgrade_to_unique_lock, lock_guard, shared_lock_guard, reverse_lock, strict/nested strict locks, with_lock_guard, lock factories), owns_lock()/operator bool/mutex() always agree with the calls made on the underlying lockable, and the destructor releases exactly what is still owned, once, in the matching mode, also when the scope is left by an exception. "
 "Move, swap, release and conversion between lock kinds transfer ownership without an extra lock or unlock and leave the source owning nothing. "
 "Misuse (locking when already owned, unlocking when not owned, operating without a mutex) raises lock_error with the documented code and changes nothing.",
 ["histories", "programs", "fault_sequences"], "for every history of construction, lock/try/timed/unlock, move, swap, release, conversion and destruction of lock objects, including lockables that refuse or throw",
 "The existing tests check one operation per test in a fixed state; ownership accounting must hold over arbitrary histories.",
 [I+"lock_types.hpp", I+"lock_guard.hpp", I+"shared_lock_guard.hpp", I+"reverse_lock.hpp", I+"strict_lock.hpp", I+"with_lock_guard.hpp", I+"lock_factories.hpp"],
 [("unique_lock/shared_lock/upgrade_lock m + is_locked", I+"lock_types.hpp"), ("upgrade_to_unique_lock", I+"lock_types.hpp"), ("reverse_lock", I+"reverse_lock.hpp"), ("nested_strict_lock", I+"strict_lock.hpp")])

prop("C01", "Condition variables lose no wakeup and always return with the lock held",
 "For condition_variable and condition_variable_any with any lockable, releasing the lock and starting to wait is atomic with respect to notifiers that hold the lock: notify_one wakes at least one and notify_all every thread that was then waiting, so no waiter whose notification was sent stays blocked. "
 "Every wait form returns or throws only with the caller's lock re-acquired and owned; predicate forms return only with the predicate true, or with the predicate's current value after the deadline. "
 "cv_status::timeout (false) is reported only when the deadline passed.",
 ["schedules", "programs", "fault_sequences"], "for every program of waits (plain, predicate, timed, any lock type), notifications, interruptions and throwing predicates or lockables, under every interleaving and legal spurious wakeup",
 "Tests use one waiter and a sleep before the notify; the window between releasing the lock and blocking is hit only by chance.",
 [I+"pthread/condition_variable.hpp", I+"pthread/condition_variable_fwd.hpp", I+"condition_variable.hpp"],
 [("condition_variable::wait / do_wait_until", I+"pthread/condition_variable.hpp"), ("condition_variable_any relocking", I+"pthread/condition_variable.hpp"), ("lock_on_exit", I+"pthread/condition_variable.hpp"), ("internal_mutex held by notifiers", I+"pthread/condition_variable_fwd.hpp")])

prop("C02", "Timed operations keep their deadline on the named clock, also across jumps",
 "No timed operation (timed locks, condition waits, future waits, timed joins, sleeps, latch waits, timed queue pulls) reports a timeout before its deadline has been reached on the clock the deadline was given in, and relative timeouts are measured on a steady clock whatever the system clock does. "
 "Once the deadline is reached on that clock the operation returns within the documented polling interval (at once when no clock was stepped), and it returns success immediately when the awaited event is already there, even for deadlines in the past, at zero or centuries away. "
 "A system-clock step never makes an operation hang, fire early, or miss the event it waits for.",
 ["inputs", "schedules", "fault_sequences"], "for every timed operation, clock (steady, system, custom), duration type and value, deadline value, and every sequence of forward and backward system-clock steps",
 "Tests compare against the wall clock with tolerances, use a few durations, and cannot step the system clock.",
 [I+"detail/platform_time.hpp", I+"pthread/condition_variable.hpp", I+"pthread/condition_variable_fwd.hpp", I+"pthread/mutex.hpp", I+"pthread/recursive_mutex.hpp", I+"pthread/shared_mutex.hpp", I+"pthread/thread_data.hpp", "src/pthread/thread.cpp", I+"detail/thread.hpp"],
 [("platform_timepoint/platform_duration arithmetic", I+"detail/platform_time.hpp"), ("poll loop for non-monotonic clocks", I+"pthread/condition_variable_fwd.hpp"), ("sleep_until/no_interruption_point", "src/pthread/thread.cpp")])

prop("I01", "An interruption request is delivered once, only where it may be",
 "interrupt() on a running thread makes that thread throw thread_interrupted at its next (or current, blocked) interruption point in which interruption is enabled, wakes it if it is blocked there, is consumed by exactly one throw, and is never lost, duplicated or delivered to another thread. "
 "No interruption is delivered while disable_interruption is in force; nested disable_interruption/restore_interruption restore the exact previous state, and interruption_requested()/interruption_enabled() report it. "
 "A wait or join left by interruption leaves its lock re-acquired and its objects usable, and an uncaught thread_interrupted ends the thread silently as completed.",
 ["schedules", "programs"], "for every program of interruptible calls, disable/restore scopes and interrupt() requests from other threads, under every interleaving of request, blocking and wakeup",
 "Tests interrupt a thread that is already parked (after a sleep); the races between request, entering the wait and notification are not reached.",
 ["src/pthread/thread.cpp", I+"pthread/thread_data.hpp", I+"pthread/condition_variable.hpp", I+"detail/thread.hpp", I+"detail/thread_interruption.hpp"],
 [("interruption_checker", I+"pthread/thread_data.hpp"), ("thread::interrupt / interruption_point", "src/pthread/thread.cpp"), ("disable/restore_interruption", "src/pthread/thread.cpp")],
 [("interrupt_requested, interrupt_enabled, current_cond", "pending request and where the thread is parked", I+"pthread/thread_data.hpp")])

prop("O01", "call_once runs the function to success exactly once and publishes it",
 "For every once_flag, exactly one invocation among all call_once calls completes normally, no two invocations overlap, and every call_once that returns normally returns after that completion and with its effects visible. "
 "If the chosen invocation throws, the exception reaches exactly that caller, the flag is as if never called, and one of the other or later callers runs the function; nobody stays blocked. "
 "Arguments reach the function that runs, and distinct flags do not interfere.",
 ["schedules", "programs", "fault_sequences"], "for every number of threads, flags, arguments and sequence of throwing invocations, under every interleaving, in both once implementations",
 "Tests run a few threads once; retry after an exception racing with waiters, and memory ordering on the fast path, are not observable there.",
 [I+"pthread/once.hpp", I+"pthread/once_atomic.hpp", "src/pthread/once.cpp", "src/pthread/once_atomic.cpp", I+"once.hpp"],
 [("enter/commit/rollback_once_region", "src/pthread/once_atomic.cpp"), ("epoch fast path", I+"pthread/once.hpp")])

prop("B01", "Barriers and latches release everybody exactly at the count",
 "No thread leaves barrier::wait/count_down_and_wait before the configured number of threads of the same generation has arrived, all of them leave, exactly one of them is told so, the completion function runs exactly once per generation before anyone leaves (its result setting the next count), and the barrier can be reused without mixing generations. "
 "latch waiters return exactly when the count reached zero (try/timed forms report whether it had), count_down lowers it by one, and no waiter stays blocked after zero; completion_latch runs its function once per completion. "
 "Arrival happens-before release.",
 ["schedules", "programs"], "for every thread count, number of generations, mix of waiting, counting-down and timed calls, under every interleaving and spurious wakeup",
 "Tests run one round with a few threads; generation mixing and stranded waiters need a fast thread overtaking a slow one.",
 [I+"barrier.hpp", I+"latch.hpp", I+"completion_latch.hpp", I+"detail/counter.hpp"],
 [("barrier m_generation/m_count", I+"barrier.hpp"), ("latch generation_/count_", I+"latch.hpp"), ("completion_latch counters", I+"completion_latch.hpp")])

prop("H01", "A thread runs its function once; join, detach, ids and groups tell the truth",
 "Starting a thread runs the given callable exactly once with exactly the given (decayed, moved or referenced) arguments on a new thread, whose effects happen-before the return of every successful join or timed join; join returns only after the function, its exit handlers and its thread-specific cleanup have finished, and a timed join returns true exactly when the thread has finished. "
 "joinable(), get_id(), move, swap and detach always agree with which thread object refers to which running thread (ids of live threads are distinct, default id for none), joining a non-joinable thread or oneself raises the documented thread_resource_error, and every native thread is joined or detached exactly once and its resources freed. "
 "thread_group, scoped_thread and thread_guard join, interrupt, count or detach exactly the threads they hold.",
 ["schedules", "programs", "histories"], "for every program of starting, moving, swapping, joining (also concurrently and timed), detaching, interrupting and grouping threads, under every interleaving",
 "Tests use one thread per property and cannot see double joins, leaked native threads or id reuse under races.",
 [I+"detail/thread.hpp", "src/pthread/thread.cpp", I+"pthread/thread_data.hpp", I+"detail/thread_group.hpp", I+"scoped_thread.hpp", I+"thread_guard.hpp", I+"thread_functors.hpp"],
 [("thread::start_thread_noexcept / join_noexcept / detach", "src/pthread/thread.cpp"), ("thread_proxy", "src/pthread/thread.cpp"), ("thread_group", I+"detail/thread_group.hpp")],
 [("done, join_started, joined, done_condition", "life-cycle of a thread", I+"pthread/thread_data.hpp")])

prop("H02", "Thread-specific data is private and cleaned up exactly once at thread exit",
 "Every thread sees through thread_specific_ptr only the value it stored itself (null before), get/reset/release behave per thread, and each stored non-null value not released is passed to its cleanup function exactly once: on reset to another value or at that thread's exit, on that thread, including values stored by other cleanups during exit. "
 "Functions given to at_thread_exit run exactly once each on the exiting thread, before its thread-specific data is destroyed. "
 "This holds for threads created by the library or externally and however the thread function ends.",
 ["schedules", "programs", "histories"], "for every history of set, reset, release, get, creation and destruction of pointers and exit handlers over any number of library and native threads",
 "Tests use one pointer and one value per thread; cleanup accounting must hold for arbitrary histories including cleanups that store again.",
 [I+"tss.hpp", "src/pthread/thread.cpp", I+"detail/thread.hpp"],
 [("set_tss_data / erase_or_add", "src/pthread/thread.cpp"), ("tls_destructor loop", "src/pthread/thread.cpp"), ("add_thread_exit_function", "src/pthread/thread.cpp")])

prop("F01", "A promise's result reaches every future once, intact and in time",
 "A shared state is satisfied at most once, by value or exception; later attempts raise promise_already_satisfied and change nothing, destroying or overwriting an unsatisfied promise delivers broken_promise, and every future/shared_future waiting or asking later observes exactly that value or exception, with everything before the set happening-before the get returns. "
 "get/wait/timed waits block exactly until readiness (timed ones report timeout only if not ready), is_ready/has_value/has_exception/valid/get_state tell the truth at each moment, and get_future twice, get on an invalid future or a moved-from promise raise the documented future_error and nothing else. "
 "set_value_at_thread_exit/set_exception_at_thread_exit make the state ready only when the setting thread exits.",
 ["schedules", "programs", "histories"], "for every history of promise and future operations (construct, move, swap, set, set at thread exit, destroy, get, wait, timed wait, share, query) by any number of threads, value kinds (value, reference, void, move-only, throwing copies), under every interleaving",
 "Tests fix one operation order each; races between setters, waiters and destruction and arbitrary histories are not explored.",
 [I+"future.hpp", "src/future.cpp", I+"futures/future_error.hpp"],
 [("shared_state_base::mark_finished_internal / wait", I+"future.hpp"), ("promise::set_value/set_exception", I+"future.hpp"), ("notify_deferred at thread exit", "src/pthread/thread.cpp")],
 [("done, exception, is_constructed", "readiness of the shared state", I+"future.hpp")])

prop("F02", "packaged_task and async deliver the callable's own outcome exactly once",
 "A packaged_task invokes its callable exactly once with the given arguments and its future yields exactly the callable's return value or exception; invoking again, invoking a moved-from task or taking the future twice raises the documented error, reset gives a fresh state, and dropping an uninvoked task breaks the promise. "
 "async(launch::async, ...) runs the callable exactly once on another thread, launch::deferred exactly once in the first thread that waits or gets (never in timed waits, which report deferred), with arguments decay-copied at the call; the future's readiness implies the callable finished. "
 "make_ready_future/make_exceptional_future are ready with exactly that outcome.",
 ["schedules", "programs", "histories"], "for every callable outcome (value, reference, void, move-only, exception), argument list, launch policy and history of task and future operations under every interleaving",
 "Tests cover single-threaded happy paths and one throwing case per entry point.",
 [I+"future.hpp", I+"detail/invoker.hpp"],
 [("task_base_shared_state::run / owner_destroyed", I+"future.hpp"), ("future_async_shared_state, future_deferred_shared_state", I+"future.hpp")])

prop("F03", "Continuations run exactly once, after readiness, with the right future",
 "A continuation attached with then() to a future or shared_future runs exactly once, never before the antecedent is ready, receives the ready antecedent with its outcome, runs where its launch policy or executor says, and the future returned by then() gets exactly the continuation's result or exception. "
 "Attaching races with completion without losing or duplicating a continuation, several continuations on a shared_future all run, and chains of any length complete. "
 "unwrap() and fallback_to() yield exactly the inner outcome, or the antecedent's value or the fallback.",
 ["schedules", "programs", "histories"], "for every tree of continuations (policies, executors, throwing ones, unwrap, fallback) over every outcome of the antecedent, with attachment racing completion in every interleaving",
 "Tests attach a few fixed continuations with sleeps; the attach/complete race and deep or wide trees are not covered.",
 [I+"future.hpp"],
 [("continuation_shared_state / do_continuation", I+"future.hpp"), ("future_unwrap_shared_state", I+"future.hpp"), ("set_continuation_ptr", I+"future.hpp")])

prop("F04", "Waiting for several futures completes exactly when it should",
 "when_all becomes ready exactly when all its inputs are ready and when_any when at least one is, carrying the very input futures in order, still valid; wait_for_all returns only when all are ready and wait_for_any returns the index (iterator) of a ready future and blocks only while none is. "
 "Deferred inputs of when_all, when_any and wait_for_all are run rather than waited for forever, empty ranges are ready at once, and concurrent waits on overlapping sets of shared futures in any order neither deadlock nor disturb each other. "
 "No waiter registration survives the call.",
 ["schedules", "programs", "histories"], "for every set of futures/shared_futures (pending, ready, failing, deferred), order of completion and number of concurrent waiters, under every interleaving",
 "Tests complete one future in a fixed position; overlapping concurrent waits and completion during registration are never exercised.",
 [I+"future.hpp", I+"futures/wait_for_all.hpp", I+"futures/wait_for_any.hpp"],
 [("future_waiter", I+"future.hpp"), ("future_when_all/when_any shared states", I+"future.hpp")])

prop("E01", "Executors run every accepted task exactly once and stop cleanly",
 "Each closure accepted by an executor (basic_thread_pool, thread_executor, loop_executor, inline_executor, serial_executor, serial_executor_cont, and executor/executor_adaptor/generic_executor_ref wrappers) is executed exactly once, submission happens-before execution, and submit after close() throws sync_queue_is_closed and runs nothing. "
 "close() followed by join or loop drains what was accepted before, destruction of a pool, thread_executor or serial executor completes every accepted closure and none runs later, serial executors run tasks one at a time in submission order, and loop/try_executing_one run tasks on the calling thread. "
 "Submissions, closing and (for executors other than the serial ones) helping with try_executing_one and reschedule_until may race in any way without loss, duplication, deadlock or crash.",
 ["schedules", "programs"], "for every executor kind, number of submitting and helping threads, nesting of submissions from tasks, and point of close/destruction, under every interleaving",
 "Tests submit a fixed list of tasks from one thread.",
 [I+"executors/basic_thread_pool.hpp", I+"executors/thread_executor.hpp", I+"executors/loop_executor.hpp", I+"executors/inline_executor.hpp", I+"executors/serial_executor.hpp", I+"executors/serial_executor_cont.hpp", I+"executors/executor_adaptor.hpp", I+"executors/generic_executor_ref.hpp", I+"detail/nullary_function.hpp"],
 [("worker_thread loop over sync_queue", I+"executors/basic_thread_pool.hpp"), ("serial_executor worker", I+"executors/serial_executor.hpp"), ("nullary_function type erasure", I+"detail/nullary_function.hpp")])

prop("E02", "Scheduled executors run each task once, not before its time, in time order",
 "A closure submitted to a scheduler, scheduling_adaptor or scheduled_thread_pool for a time point or delay is never run before that time on its clock, is run exactly once when the time comes while the executor is open (in order of time when one thread runs them), also when an earlier task arrives while a later one is being waited for. "
 "Scheduler front ends (at, after, on) deliver the closure to the chosen executor under the same rule. "
 "close() and destruction terminate promptly, never run a task early or twice, and later submissions are refused.",
 ["schedules", "programs", "inputs"], "for every set of submission times, delays, clocks, submitting threads and close points, under every interleaving of time and threads",
 "Tests use real sleeps and print; order and earliness are unchecked and timing races are not reached.",
 [I+"executors/scheduler.hpp", I+"executors/scheduling_adaptor.hpp", I+"executors/scheduled_thread_pool.hpp", I+"executors/detail/scheduled_executor_base.hpp", I+"executors/detail/priority_executor_base.hpp", I+"concurrent_queues/sync_timed_queue.hpp"],
 [("priority_executor_base::loop", I+"executors/detail/priority_executor_base.hpp"), ("sync_timed_queue::wait_to_pull", I+"concurrent_queues/sync_timed_queue.hpp")])

prop("Q01", "Synchronized queues are linearizable FIFO queues with honest close and capacity",
 "Every concurrent history on sync_queue, sync_deque and sync_bounded_queue (and their view/adaptor interfaces) is equivalent to a sequential FIFO history consistent with real time: no element is lost, duplicated, invented or reordered, and size/empty/full answers fit that history. "
 "Status results are truthful (success, empty, full, closed, busy only while another operation is in progress), a bounded queue never exceeds its capacity, and a blocked push or pull proceeds as soon as an element, space or close() permits. "
 "After close() pushes are refused and remaining elements can still be pulled, after which pulls report closed; an element whose copy or move throws leaves the queue consistent.",
 ["schedules", "programs", "histories", "fault_sequences"], "for every program of push/pull/try/wait/nonblocking/close/size operations by any number of producers and consumers, element types that throw, and capacities, under every interleaving and spurious wakeup",
 "Tests use one producer and one consumer at a time with deterministic outcomes.",
 [I+"concurrent_queues/sync_queue.hpp", I+"concurrent_queues/sync_deque.hpp", I+"concurrent_queues/sync_bounded_queue.hpp", I+"concurrent_queues/detail/sync_queue_base.hpp", I+"concurrent_queues/detail/sync_deque_base.hpp", I+"concurrent_queues/queue_adaptor.hpp", I+"concurrent_queues/queue_views.hpp"],
 [("mtx_/cond_ protected container", I+"concurrent_queues/detail/sync_queue_base.hpp"), ("waiting_full_/waiting_empty_ hand-off", I+"concurrent_queues/sync_bounded_queue.hpp")])

prop("Q02", "Priority and timed queues always yield the greatest / the due element",
 "sync_priority_queue pulls, in every concurrent history, an element that is greatest under its comparison among those present, with no loss, duplication or invention, and with the same blocking, status and close rules as the other queues. "
 "sync_timed_queue never yields an element before its time point on the queue's clock, yields the earliest due element when one is due, reports not_ready/empty/timeout/closed truthfully, and a blocked pull wakes when the head becomes due, when an earlier element is pushed or when the queue is closed. "
 "Timed pulls obey their deadline.",
 ["schedules", "programs", "inputs", "histories"], "for every multiset of priorities or time points, clocks, and operation history by any number of threads, under every interleaving of threads and time",
 "Tests push a few elements in order and pull them from one thread.",
 [I+"concurrent_queues/sync_priority_queue.hpp", I+"concurrent_queues/sync_timed_queue.hpp"],
 [("priority_queue heap", I+"concurrent_queues/sync_priority_queue.hpp"), ("wait_to_pull / wait_to_pull_until", I+"concurrent_queues/sync_timed_queue.hpp")])

prop("S01", "synchronized_value and externally_locked give only exclusive, exact access",
 "Every access to a synchronized_value (operator->, dereference, get, synchronize, unique/shared access, assignment, swap, comparison, explicit value conversion) is made while its mutex is held exactly once, is mutually exclusive with every other access, and leaves the mutex free afterwards, also when the access throws. "
 "Operations on two synchronized_values (assignment, swap, comparison, synchronize of several) lock both without deadlock in any order, including self-assignment and self-swap, and act as one atomic step on the values. "
 "externally_locked hands out its value only against a lock owning the right mutex and raises lock_error otherwise.",
 ["schedules", "programs"], "for every program of operations on any number of synchronized values by any number of threads with every argument order, under every interleaving, including throwing value operations",
 "synchronized_value's tests are single-threaded; deadlock order and atomicity of two-object operations are untested.",
 [I+"synchronized_value.hpp", I+"externally_locked.hpp", I+"externally_locked_stream.hpp", I+"lock_algorithms.hpp"],
 [("strict_lock_ptr / unique_lock_ptr", I+"synchronized_value.hpp"), ("two-lock operations via boost::lock", I+"synchronized_value.hpp")])

prop("X01", "Resource failures and throwing user code leave everything usable",
 "When thread creation, mutex or condition-variable initialisation, memory allocation, or the copy of a user object fails inside a library call (starting threads and thread groups, constructing synchronisation objects, queues and executors, setting promises, attaching and launching continuations, async, when_all/when_any, waiting for several futures, submitting closures, per-thread exit and cleanup registrations), that call throws thread_resource_error, bad_alloc or the user's own exception, or delivers it through the future concerned; a failed call otherwise has no effect on the objects involved apart from arguments it had already moved from. "
 "No lock stays held, no thread is left blocked or running on a destroyed object, nothing is leaked or freed twice, no half-started thread or half-set result becomes visible, and every object involved can still be used and destroyed: a promise whose set_value failed is still unsatisfied, and no future of a failed asynchronous operation waits forever, not even in its destructor. "
 "An exception that leaves a thread function, an exit function or a closure run by basic_thread_pool, loop_executor, inline_executor, thread_executor or scheduler calls std::terminate.",
 ["fault_sequences", "programs", "schedules"], "for every such operation and every position of an injected failure (thread start, mutex/condition initialisation, n-th allocation, n-th user copy), under every interleaving",
 "The failures cannot be provoked in the existing tests.",
 ["src/pthread/thread.cpp", I+"detail/thread.hpp", I+"detail/thread_group.hpp", I+"pthread/mutex.hpp", I+"pthread/condition_variable_fwd.hpp", I+"future.hpp", I+"executors/basic_thread_pool.hpp", I+"executors/scheduled_thread_pool.hpp", I+"executors/thread_executor.hpp", I+"concurrent_queues/detail/sync_queue_base.hpp"],
 [("start_thread_noexcept roll-back", "src/pthread/thread.cpp"), ("constructors' init error handling", I+"pthread/condition_variable_fwd.hpp"), ("RAII locking", I+"lock_types.hpp"), ("future_async_shared_state_base", I+"future.hpp")])

prop("R01", "A task region ends only when all its tasks have, with all their exceptions",
 "task_region and task_region_final return only after the body and every task spawned in it, transitively through nested regions, have finished, each task having run exactly once and with its effects visible afterwards. "
 "If the body or tasks throw, each exception is delivered exactly once: in the exception_list thrown by the region, or by the wait() inside the body that finds it first (if the body lets that escape, the region delivers its exceptions); a region whose tasks all succeeded throws nothing. "
 "Once a task has thrown, run() and wait() may only refuse with task_canceled_exception, never before. "
 "run() copies an lvalue task and moves an rvalue one. "
 "This holds with any executor behind the region that can run the tasks, also when the thread in the region is interrupted.",
 ["schedules", "programs", "fault_sequences"], "for every tree of tasks and nested regions, every subset of throwing tasks and body, under every interleaving",
 "The tests run a fixed recursive sum and a single throwing task.",
 [I+"experimental/parallel/v2/task_region.hpp", I+"experimental/parallel/v1/exception_list.hpp"],
 [("task_region_handle_gen::wait_all / handle_exceptions", I+"experimental/parallel/v2/task_region.hpp")])

prop("P01", "Time values convert exactly and waits honour every one of them",
 "Every duration or time point a user passes (any chrono period and signed or floating representation, posix_time durations and times including the special values, xtime, timespec; negative, zero or large) whose nanosecond count is representable in 64 bits is turned into the internal value exactly to the nanosecond, rounded up so that waiting is never shortened (floating-point values within their own rounding error), with a nanosecond field in [0, 10^9). "
 "posix_time positive infinity means to wait without end; negative infinity and not_a_date_time mean not to wait. "
 "Comparison, difference and addition of the internal time values agree with exact integer arithmetic; timespec round-trips exactly, and xtime and system_time round-trip to the microsecond, before 1970 too, with an nsec field in range. "
 "Every timed function (condition variables, timed and shared mutexes, futures, latch, join, sleep) given such a value gives up at that deadline: not before it, and (the thread being scheduled) at once after it.",
 ["inputs"], "for every duration/time-point type and value over the whole representable range",
 "Tests use a few small positive durations.",
 [I+"detail/platform_time.hpp", I+"pthread/condition_variable_fwd.hpp", I+"thread_time.hpp", I+"xtime.hpp"],
 [("platform_duration / *_platform_timepoint", I+"detail/platform_time.hpp")])

prop("H03", "Thread ids are one identity; attributes and concurrency queries are honest",
 "At any moment the ids of all live threads (started by the library or not) are pairwise different and different from the id of no thread; each thread sees one id for its whole life, exit handlers included, and a thread object's get_id() and native_handle() name its thread, following moves and swaps; ids are totally ordered, and equality, the six comparisons, hashing and printing (narrow and wide, without changing the stream's format) agree with one another. "
 "A stack size set on thread attributes is raised to the minimum and rounded up to whole pages, reported back, and it and the detached state are what the native thread is created with. "
 "hardware_concurrency() is the number of online processors (0 if unknown) and physical_concurrency() the number of distinct (physical id, core id) pairs of the system's description, or hardware_concurrency() when that is missing or malformed, for every content.",
 ["inputs", "schedules", "configurations"], "for every set of threads and moves of their handles, every attribute value and every system description",
 "Tests compare two ids and check that the queries return something.",
 ["src/pthread/thread.cpp", I+"detail/thread.hpp", I+"pthread/thread_data.hpp", I+"detail/string_to_unsigned.hpp", I+"detail/string_trim.hpp"],
 [("thread::id", I+"detail/thread.hpp"), ("thread_attributes", I+"pthread/thread_data.hpp"), ("thread::physical_concurrency", "src/pthread/thread.cpp")])

prop("M05", "Lockable adapters forward exactly, testable mutexes know their owner",
 "Every operation of basic_/lockable_/timed_/shared_/upgrade_lockable_adapter (also through const) and of the polymorphic lockables and their adapters performs exactly that one operation, with exactly that deadline or duration, on its own underlying lockable, and passes on its result or exception. "
 "testable_mutex over any lockable excludes, grants and times out like the lockable; is_locked_by_this_thread() is true for a thread exactly while that thread owns the mutex, in every schedule, also after failed and timed attempts, is_locked() is true and get_id() names the owner throughout the ownership, and both are reset when nobody owns it. "
 "null_mutex never blocks and never refuses, whatever the mix of threads and kinds of ownership.",
 ["inputs", "schedules", "histories"], "for every operation sequence, argument and schedule",
 "Tests compile the adapters or use one thread.",
 [I+"lockable_adapter.hpp", I+"poly_lockable_adapter.hpp", I+"poly_shared_lockable_adapter.hpp", I+"poly_lockable.hpp", I+"poly_shared_lockable.hpp", I+"testable_mutex.hpp", I+"null_mutex.hpp"],
 [("testable_mutex::lock/unlock/try_lock*", I+"testable_mutex.hpp"), ("upgrade_lockable_adapter", I+"lockable_adapter.hpp")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
