# The property table. tools/gen.py turns it into properties.jsonl and MANIFEST.json.
I = "include/asyncpp/"
NA = {}
P = [
dict(id="C01", title="A single-consumer event never loses a wake-up and never resumes twice",
 statement="A coroutine that waits on an event is resumed exactly once if the event is set before, during or after the wait, on every interleaving of the setting and the waiting thread. Set reports success exactly if the event was not set before; after a reset the event blocks waiters again. Everything written before the set is visible to the resumed coroutine.",
 over=["schedules", "histories"], q="Every interleaving of the atomic operations of setters and the waiter, and every sequence of set, reset, is_set and wait.", why="The tests run each operation order once on one thread; a lost wake-up needs a set between the waiter's check and its suspension.",
 files=[I + "event.h"], mech=[("single_consumer_event", "event.h: class single_consumer_event: set(), await_suspend()")]),
dict(id="C02", title="Auto-reset single-consumer event: each set releases one wait",
 statement="A set of a single-consumer auto-reset event is consumed by exactly one wait: the waiting coroutine, or the next one to arrive. On every interleaving no set is lost, none releases two waits, and no coroutine is resumed twice.",
 over=["schedules", "histories"], q="Every interleaving of setters and the waiter and every short history of set, reset and wait.", why="The tests set and wait on one thread in a fixed order.",
 files=[I + "event.h"], mech=[("single_consumer_auto_reset_event", "event.h: class single_consumer_auto_reset_event")]),
dict(id="C03", title="A multi-consumer event releases every waiter exactly once",
 statement="Setting a multi-consumer event resumes every coroutine waiting at that moment exactly once, and every later wait continues at once until it is reset, whatever the interleaving of waiters and setters. Set tells truthfully whether it released anybody.",
 over=["schedules", "histories"], q="Every interleaving of up to three waiters with setters; every short history of set, reset and waits.", why="Registering a waiter and setting the event race on one word; the tests never run them at the same time.",
 files=[I + "event.h"], mech=[("multi_consumer_event", "event.h: class multi_consumer_event: lock-free list of waiters")]),
dict(id="C04", title="Auto-reset multi-consumer event: one set, one waiter, nobody forgotten",
 statement="Each set of a multi-consumer auto-reset event releases at most one waiting coroutine (or the next to arrive), no waiting coroutine is dropped, and none is resumed twice, on every interleaving of setters and waiters.",
 over=["schedules", "histories"], q="Every interleaving of up to three waiters and two setters; every short history of set, reset and waits.", why="Losing a waiter needs a particular overlap of a set with arriving waiters.",
 files=[I + "event.h"], mech=[("multi_consumer_auto_reset_event", "event.h: class multi_consumer_auto_reset_event")]),
dict(id="C05", title="Event waiters are resumed on the dispatcher they asked for",
 statement="A coroutine suspended on an event is resumed through the dispatcher it chose or, if it chose none, the one it was running on; without any dispatcher it is resumed inline by the set. It is handed to exactly one dispatcher exactly once.",
 over=["inputs", "configurations"], q="Every combination of current dispatcher, chosen dispatcher, event kind and order of set and wait.", why="The tests cover a few of the combinations.",
 files=[I + "event.h", I + "dispatcher.h"], mech=[("resume_on / parent dispatcher", "event.h: awaiters' m_dispatcher and await_suspend")]),
dict(id="C06", title="Coroutine mutex: mutual exclusion and no lost hand-over",
 statement="At most one coroutine holds a mutex at a time; every coroutine that asks for it eventually gets it once the holders release it, exactly once, in the order of arrival as documented; try_lock succeeds only on a free mutex. Writes made under the mutex are visible to the next holder.",
 over=["schedules", "histories"], q="Every interleaving of up to three threads locking, trying and unlocking; every short history.", why="The existing tests drive the mutex from one thread.",
 files=[I + "mutex.h"], mech=[("mutex lock list", "mutex.h: class mutex: lock()/try_lock()/unlock()")]),
dict(id="C07", title="The mutex lock guard releases exactly what it holds",
 statement="A lock guard releases its mutex exactly once: on destruction, on explicit unlock or on being overwritten by a move, and never a mutex it does not hold; moved-from and released guards own nothing.",
 over=["histories", "inputs"], q="Every short sequence of lock, try_lock, unlock, move and destroy on guards over two mutexes.", why="Tests use a handful of sequences.",
 files=[I + "mutex.h"], mech=[("mutex_lock", "mutex.h: class mutex_lock")]),
dict(id="C08", title="A latch releases its waiters exactly when its count reaches zero",
 statement="Coroutines waiting on a latch are all resumed, exactly once, when its count has been decremented to zero, and not before; waits after that continue at once. Everything done before a decrement is visible after the wait.",
 over=["schedules", "inputs"], q="Every interleaving of up to three decrementing threads and waiters, every initial count in the bound.", why="There is no test of concurrent decrements racing with a wait.",
 files=[I + "latch.h"], mech=[("latch counter and event", "latch.h: class latch")]),
dict(id="C09", title="Channel: each written value is read once, in order, intact",
 statement="Every value whose write succeeded is delivered to exactly one read, unchanged and in the order written by each writer; a write succeeds once its value was taken, try_write and try_read succeed exactly if a counterpart is waiting, and no reader or writer with a counterpart stays suspended.",
 over=["schedules", "inputs", "histories"], q="Every interleaving of readers and writers within the bounds, every payload, every short history.", why="The tests run readers and writers on one thread in fixed order.",
 files=[I + "channel.h"], mech=[("channel read/write lists", "channel.h: read_awaiter, write_awaiter, try_read, try_write")]),
dict(id="C10", title="Closing a channel wakes everybody and nothing hangs afterwards",
 statement="Closing a channel resumes every suspended reader with no value and every suspended writer with failure, exactly once; reads and writes started concurrently or later complete likewise instead of suspending for ever.",
 over=["schedules", "histories"], q="Every interleaving of close with reads and writes; every short history that contains close.", why="The window between checking for closure and suspending is never hit by the tests.",
 files=[I + "channel.h"], mech=[("channel close", "channel.h: close() and the await_suspend functions")]),
dict(id="C11", title="Queue: first in, first out, exactly once, without lost wake-ups",
 statement="Every pushed value is popped exactly once, unchanged, values of one pusher in order; a pop suspends only while the queue is empty and a push only while it is full, for every capacity including zero, and both are resumed exactly once when that changes.",
 over=["schedules", "inputs", "histories"], q="Every interleaving of pushers and poppers within the bounds, every capacity 0..2, every payload, every short history.", why="The tests use one thread and a few capacities.",
 files=[I + "queue.h"], mech=[("queue push/pop", "queue.h: push_awaiter, pop_awaiter, try_push, try_pop, try_emplace")]),
dict(id="C12", title="Queue: clear, move and failing elements leave nobody behind",
 statement="Clearing a queue drops its contents and fails suspended pushes; moving a queue takes its contents, capacity and waiters along and leaves the source empty, failing the waiters of an overwritten queue; an element whose construction throws leaves the queue and its waiters unchanged.",
 over=["schedules", "histories", "fault_sequences"], q="Every short history with clear and move, clear against concurrent push and pop, and a throwing element in every state of the queue.", why="Tests cover one history of each.",
 files=[I + "queue.h"], mech=[("queue clear/move", "queue.h: clear(), move constructor and assignment, try_emplace()")]),
dict(id="C13", title="A promise settles once and everybody sees the winning result",
 statement="Of all attempts to fulfil or reject a promise exactly one succeeds, and every observer (await, blocking get, callback, query, on any copy) sees that result, exactly once, whenever it registered. A timed get gives up only while the promise is pending, and not before its time; callbacks that are never called are destroyed, and a throwing callback terminates.",
 over=["schedules", "inputs", "histories"], q="Every interleaving of up to three settlers and two observers of every kind, every result, every short history over copies.", why="The tests settle and observe in a fixed order.",
 files=[I + "promise.h"], mech=[("promise_state", "promise.h: try_fulfill, try_reject, then, on_settle; class promise: get, try_get, operator co_await")]),
dict(id="C14", title="Promise combinators settle with the right result at the right time",
 statement="The first-of combination settles with the first settled argument; the first-successful one is fulfilled if any argument is and otherwise rejected with the last error; the all-of combination is fulfilled exactly when every argument has settled. This holds for arguments settled concurrently, in any order, before or after combining.",
 over=["schedules", "histories", "inputs"], q="Every order and interleaving of settling two or three arguments, every mix of results.", why="The tests use one order for each combinator.",
 files=[I + "promise.h"], mech=[("combinators", "promise.h: promise_first, promise_first_successful, promise_all")]),
dict(id="C15", title="Reference counted objects die exactly once, after their last use",
 statement="An object is destroyed exactly when its last reference goes away, exactly once, whichever thread drops it, and the destruction is ordered after every use through any reference. Copying, moving, resetting, releasing, adopting, self-assignment and casting keep the count equal to the number of references. Handles compare and hash like the addresses of their objects.",
 over=["schedules", "histories"], q="Every interleaving of up to three threads dropping references and every short history over three handles.", why="Count errors show only in particular histories, ordering errors only on particular schedules.",
 files=[I + "ref.h"], mech=[("counter", "ref.h: thread_safe_refcount, intrusive_refcount::remove_ref"), ("handle", "ref.h: class ref, *_ref_cast")]),
dict(id="C16", title="An atomic reference can be loaded and replaced concurrently",
 statement="Concurrent loads, stores, exchanges and assignments of an atomic reference behave as if done one after the other: every reference handed out is alive, every replaced object is released exactly once, and the stored object stays alive. A pointer that collides with the lock bit is refused with an exception and nothing changed.",
 over=["schedules", "histories"], q="Every interleaving of two or three operations of every kind, including empty values, and every short history.", why="The tests use it from one thread.",
 files=[I + "ref.h"], mech=[("atomic_ref spin bit", "ref.h: class atomic_ref: lock, unlock_with, load, exchange")]),
dict(id="C17", title="Tagged pointers give back the pointer and the tag",
 statement="For every pointer of a type and every tag that fits its alignment, tagging and untagging gives back the same pointer and the same tag, for mutable and constant pointers and for enumerations as tags; an untagged pointer has tag zero.",
 over=["inputs"], q="Every address (64 bit, suitably aligned), alignments 1 to 4096, every tag that fits the smaller ones.", why="Tests tag one or two addresses; an address with high bits set is never used.",
 files=[I + "ptr_tag.h"], mech=[("tag bits", "ptr_tag.h: ptr_tag, ptr_untag, ptr_get_tag")]),
dict(id="C18", title="Scope guards run their function exactly when engaged",
 statement="A scope guard calls its function exactly once at the end of its scope if it is engaged then, and not otherwise, however the scope is left (fall through, return, exception); several guards run innermost first.",
 over=["histories", "inputs"], q="Every sequence of up to 4 (thorough: 10) operations on two guards; every way of leaving a scope with three guards.", why="Tests use one guard and a fixed sequence.",
 files=[I + "scope_guard.h"], mech=[("scope_guard", "scope_guard.h: class scope_guard")]),
dict(id="C19", title="Stop states: one request, seen by everybody that shares the state",
 statement="asyncpp's own stop_source, stop_token and stop_callback follow the standard's specification: only the first request succeeds, every source and token of the state sees it, a token reports that a stop is possible exactly while a source exists or a stop was requested, callbacks registered at the time of the request run exactly once and later ones at once; nothing leaks.",
 over=["histories"], q="Every sequence of up to 4 (5) operations (create, copy, move, assign, swap, drop, request) over two sources and two tokens, and up to 4 (6) callback operations.", why="The fallback implementation is not compiled by the tests at all with this standard library.",
 files=[I + "stop_token.h"], mech=[("stop state", "stop_token.h: stop_state_t, stop_state_ref"), ("handles", "stop_token.h: stop_source, stop_token, stop_callback")], note="Compiled with ASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1."),
dict(id="C20", title="Stop callbacks and stop requests race safely",
 statement="When stop requests, callback registration and callback removal happen on different threads exactly one request wins, each callback runs at most once and, if it was registered before the request, exactly once; removing a callback returns only when it is not running on another thread and it is never called afterwards; a callback may remove itself. What happened before the request is visible to the callbacks. The state is freed exactly once.",
 over=["schedules"], q="Every interleaving of up to two requesters and two registering or removing threads.", why="The fallback implementation is not tested; its locking is hand written.",
 files=[I + "stop_token.h"], mech=[("request/register/remove", "stop_token.h: request_stop, register_callback, remove_callback")], note="Compiled with ASYNCPP_FORCE_CUSTOM_STOP_TOKEN=1."),
dict(id="C21", title="The thread safe queue hands out each element once, in order",
 statement="Whatever threads push, emplace and pop concurrently, every element comes out exactly once, unchanged, those of one pusher in order; pop returns nothing exactly if the queue is empty. Copying, moving and assigning queues take over the contents, also while others use them, without deadlock; a throwing element leaves the queue unchanged.",
 over=["schedules", "histories", "inputs"], q="Every interleaving of up to two pushers and two poppers, crossing assignments, every history of up to 5 (8) operations over two queues.", why="There are no tests of this class.",
 files=[I + "threadsafe_queue.h"], mech=[("mutex around std::queue", "threadsafe_queue.h: class threadsafe_queue")]),
dict(id="C22", title="A task runs once, when awaited, and hands over its result",
 statement="A task does not run before it is awaited; awaiting it runs it and continues the awaiter exactly once with its value or its exception, unchanged, after its locals are gone, on whatever thread it ends. A task that is dropped destroys its frame, parameters and everything it awaits; moving hands over ownership.",
 over=["inputs", "histories", "schedules"], q="Every value, every combination of suspending, throwing and catching in trees of up to 7 (15) tasks, every history of up to 5 (7) operations on two owners.", why="Tests run one recursion and one allocator.",
 files=[I + "task.h"], mech=[("continuation", "task.h: final_suspend, operator co_await"), ("result", "task.h: return_value, unhandled_exception, rethrow_if_exception")]),
dict(id="C23", title="A generator yields its values in order, lazily, and cleans up",
 statement="Iterating a generator yields exactly the values produced, in order, one per step, as the very objects yielded (also references); an exception of the body comes out of the step that met it, after the values before it; abandoning the iteration at any point destroys the body's locals. Mapping applies the function lazily to each element.",
 over=["inputs", "histories"], q="Every body of up to 3 (6) yields with every kind of yield, every place of a throw and of abandoning it; every history of up to 4 (6) operations on two generators.", why="Tests iterate one counting generator to its end.",
 files=[I + "generator.h"], mech=[("generator_promise", "generator.h: yield_value, unhandled_exception"), ("iterator", "generator.h: generator_iterator, generator::begin"), ("fmap", "generator.h: fmap")]),
dict(id="C24", title="An async generator resumes the coroutine that asked, with each value once",
 statement="Each step of an async generator resumes its consumer exactly once with the next value, at the end with the end iterator or the body's exception, whether or not the body suspends in between and on whatever thread it continues; the coroutine that asked last is the one resumed. Dropping the generator destroys the body's locals.",
 over=["inputs", "histories", "schedules"], q="Every body of up to 3 (4) yields, each step suspending or not, throwing anywhere, abandoned anywhere; every history of up to 4 (6) operations on two generators.", why="Tests iterate two or three fixed bodies.",
 files=[I + "async_generator.h"], mech=[("yield operation", "async_generator.h: async_generator_yield_operation"), ("begin/increment", "async_generator.h: begin_operation, increment_op")]),
dict(id="C25", title="Detached coroutines run once and are freed once",
 statement="A fire-and-forget coroutine runs exactly once (an eager one at the call, a lazy one when first started through any of its copies), its frame is freed exactly once, after it ended and its owners are gone, whichever thread that happens on; an unstarted one is freed with its last owner. An escaping exception goes to its exception policy, by default terminating. launch() runs its awaitable at once and frees everything at its end.",
 over=["schedules", "histories", "inputs"], q="Every policy with and without exception and suspension; every history of up to 4 (6) operations on two owners; every interleaving of the end of the coroutine with the release of up to two owners and of two starts.", why="The tests run one coroutine of each kind on one thread.",
 files=[I + "fire_and_forget.h", I + "policy.h", I + "launch.h"], mech=[("reference count", "fire_and_forget.h: promise_type::ref/unref, final_suspend, start"), ("exception policy", "policy.h; fire_and_forget.h: unhandled_exception")]),
dict(id="C26", title="Joining a launch scope waits for all its tasks, exactly once",
 statement="A join of a launch scope continues exactly once, when every task launched on the scope (also by its tasks) has ended, immediately if none is running; a second join while one is waiting is refused. After the join the scope may be destroyed or used again. The number of running tasks is reported; callables and arguments live as long as their task.",
 over=["schedules", "histories"], q="Every interleaving of a join with up to two (three) ending tasks, one of which launches another; every history of up to 5 (7) launches, ends and joins.", why="The tests end tasks and join on one thread.",
 files=[I + "launch.h"], mech=[("count and continuation", "launch.h: async_launch_scope::launch, invoke, invoke_tuple, join")]),
dict(id="C27", title="Coroutine frames use the chosen allocator, balanced and aligned",
 statement="A coroutine frame is allocated from the allocator of its coroutine type (for stateful ones a copy of the last argument) and given back to it with the same size exactly once, also if the coroutine throws, is dropped or the allocation fails; frames are aligned like memory from operator new, and no copy of the allocator is left behind.",
 over=["inputs", "fault_sequences"], q="Stateless and stateful allocators of several sizes, with tasks, generators and launch, dropped or run, throwing or not; allocation failing at every point.", why="Tests check the balance for one allocator.",
 files=[I + "detail/promise_allocator_base.h", I + "detail/parameter_pack.h"], mech=[("operator new/delete", "promise_allocator_base.h: class promise_allocator_base"), ("last argument", "parameter_pack.h")]),
dict(id="C28", title="Fiber stacks and context switches preserve the machine state",
 statement="A fiber stack has at least the requested size for every size (or the request fails with nothing left mapped), lies inside its own mapping between two protected guard pages and is released exactly. A new context enters its function with its argument on an aligned stack inside that stack, with its creator's floating point control words. Switching contexts in any order restores for each the stack pointer, return address, callee-saved registers, floating point control words and (if built so) the stack guard, and leaves its stack alone.",
 over=["inputs", "histories"], q="All 64-bit sizes and page sizes 4K/16K/64K; every sequence of 8 switches between up to 4 contexts with arbitrary registers before every switch (x86-64 assembly; and the argument passing of the ucontext variant).", why="A wrongly restored register only shows if the compiler happened to keep something in it; tests never use odd sizes.",
 files=[I + "fiber.h"], mech=[("stacks", "fiber.h: fiber_allocate_stack, fiber_deallocate_stack"), ("contexts", "fiber.h: fiber_makecontext, fiber_swap_stack, fiber_swapcontext")], note="Linux x86-64; the assembly of other architectures and Windows fibers are not compiled here and not covered."),
dict(id="C29", title="Fibers await, resume and end exactly once and release everything",
 statement="A fiber that awaits something is suspended, can be resumed from anywhere, also from another thread while the first one is still leaving it, and continues with the awaited value or exception; every form of await_suspend is honoured. The coroutine awaiting a fiber is resumed once, when the fiber ended, with its result, and not if the fiber is destroyed before. Destroying a suspended fiber unwinds its stack. Locals, stack and function object are released exactly once; inside a fiber it is the current fiber, outside there is none.",
 over=["inputs", "schedules", "histories"], q="Up to 3 awaits of 10 kinds with any value, dropped at any point; every order of 7 operations on up to 3 fibers; fibers in fibers; resumption or destruction by another thread at every point; both context implementations.", why="Tests resume from one thread in a fixed order; the window after await_suspend needs a particular interleaving.",
 files=[I + "fiber.h"], mech=[("handle", "fiber.h: make_fiber_handle (resume, destroy, entry)"), ("await", "fiber.h: fiber_await"), ("fiber", "fiber.h: class fiber")]),
dict(id="C30", title="The thread pool runs every accepted callback exactly once, through every resize",
 statement="A callback accepted by a thread pool runs exactly once, on one of its workers, with the pool as current dispatcher and after everything that happened before the push, no matter how pushes (from outside, from its own or another pool's callbacks), resizes and the destruction interleave. Push refuses (by exception) only when the pool has no threads. After a resize the size is as asked; no interleaving deadlocks.",
 over=["schedules", "histories"], q="Up to two workers plus two threads: every schedule with up to 2 (3) preemptions, every placement of up to two callbacks, every sequence of 2 (3) resizes and two resizes at the same time.", why="The tests push while the pool is stable; a task is lost only if a push, a steal or a wake-up meets a shrinking pool.",
 files=[I + "thread_pool.h"], mech=[("push and resize", "thread_pool.h: push, resize"), ("workers", "thread_pool.h: thread_state::run, try_steal_task")], note="Schedules with at most the number of preemptions given per scenario, failed try-locks and timed-out waits bounded."),
dict(id="C31", title="The current dispatcher is the one running the callback",
 statement="Inside a callback dispatcher::current() is the dispatcher (or pool) that runs it; after the run, also if it ends with an exception and also for nested runs, the thread's previous dispatcher is current again. Threads do not see each other's dispatcher.",
 over=["inputs", "schedules"], q="Nesting of up to 3 dispatchers with an exception at any level; two threads interleaved.", why="Tests check one callback on one thread.",
 files=[I + "dispatcher.h", I + "simple_dispatcher.h"], mech=[("current", "dispatcher.h: current()"), ("run", "simple_dispatcher.h: run()")]),
dict(id="C32", title="The simple dispatcher runs every pushed callback once, in order, until stopped",
 statement="run() executes callbacks pushed before or during it by any thread, each once and in the order of each pusher, on the calling thread, until stop(); stop() always makes run() return, also when called concurrently with its start. An exception leaves the remaining callbacks in place. No wake-up is lost.",
 over=["schedules", "histories"], q="Every interleaving of run() with up to two pushers and a stop; every sequence of up to 4 (6) callbacks that push, stop or throw.", why="Tests push and stop from one thread.",
 files=[I + "simple_dispatcher.h"], mech=[("queue", "simple_dispatcher.h: push, stop, run")]),
dict(id="C33", title="The timer invokes every callback exactly once, not before its time",
 statement="Every callback scheduled or pushed, by any thread or by callbacks, is invoked exactly once on the timer thread: with true not before its time (equal times in scheduling order) or with false when the timer is destroyed first; pushed callbacks run in order. A push, an earlier deadline or the destruction is acted on at once, not when an unrelated timeout of the sleeping timer thread expires. A coroutine waiting on the timer resumes exactly once with that result. Every overload behaves alike.",
 over=["schedules", "inputs"], q="Every schedule with up to 3 preemptions of the timer thread, the scheduling threads and the destruction, every choice of deadlines before, at and after the current (virtual) time, durations of any size.", why="Tests use a few fixed delays in real time.",
 files=[I + "timer.h"], mech=[("scheduling", "timer.h: push, schedule, wait"), ("timer thread", "timer.h: run, ~timer")], note="Virtual clock that advances when a timed wait times out; schedules with at most the number of preemptions given per scenario."),
dict(id="C34", title="Cancelling a timer wait resolves it exactly once",
 statement="A callback or wait scheduled with a stop token is invoked exactly once on the timer thread: with false if the stop came first, with true if the time did, whenever the stop is requested: before or while scheduling, while it fires, from a callback, while another one is cancelled, while the timer is destroyed. A cancelled callback does not wait for its time. No interleaving deadlocks, races or uses a freed entry.",
 over=["schedules", "inputs"], q="Every schedule with up to 3 preemptions of stop requests, scheduling, expiry and destruction.", why="The tests cancel well before or well after the deadline.",
 files=[I + "timer.h"], mech=[("cancel callback", "timer.h: cancellable_scheduled_entry::cancel_callback, schedule(..., stop_token)"), ("expiry and shutdown", "timer.h: run")], note="Virtual clock that advances when a timed wait times out; schedules with at most the number of preemptions given per scenario."),
dict(id="C35", title="Invoking a signal calls exactly its connected callbacks, once each, in order",
 statement="An invocation of a signal calls every callback that is connected from its beginning until its turn exactly once, in list order and with the arguments, and returns how many it called; callbacks removed or disconnected before their turn, and callbacks added meanwhile, are not called. Callbacks may use the signal freely (connect, remove, disconnect, invoke, move excepted), as may other threads; so may the destructors of callbacks that are replaced. Moving a signal takes all connections along, also while another thread connects to or invokes it: no callback is lost, and one added meanwhile is invoked from then on. Handles are valid and owned exactly while connected. Nothing leaks, races, deadlocks or is used after it was freed.",
 over=["histories", "schedules"], q="Every history of 4 (5) operations with 2 nested in callbacks, every invocation of 3 callbacks performing 3 (4) operations; three threads performing any operation each, up to 4 (2) preemptions with 2 (3) threads; a move construction or assignment against any use by a second thread.", why="Tests nest one recursion and one removal; unlinking twice or missing a neighbour needs particular sequences.",
 files=[I + "signal.h"], mech=[("list", "signal.h: append, prepend, remove, free_node"), ("invocation", "signal.h: operator(), get_next_counter"), ("handles", "signal.h: signal_handle, owns_handle")]),
dict(id="C36", title="A signal manager keeps events apart and never loses a connection",
 statement="A signal manager gives every event the behaviour of its own signal: a callback is called exactly for its event while connected. Connecting, removing, invoking and shrink_to_fit() may run concurrently and from callbacks without deadlock, race or lost connection; shrink_to_fit() drops exactly the events that have no callback and are not in use. Moving takes the connections along, also while another thread uses the manager; a manager may be assigned to itself.",
 over=["histories", "schedules"], q="Every history of 4 operations on two events with 1 (2) nested; two threads with any operation each and three with append/invoke, shrink, append/remove, up to 4 (3) preemptions.", why="Tests use one event from one thread and never shrink.",
 files=[I + "signal.h"], mech=[("slots", "signal.h: signal_manager::find_or_create_slot, shrink_to_fit"), ("dispatch", "signal.h: signal_manager::invoke, remove, owns_handle")]),
dict(id="C37", title="A coroutine's outcome reaches the thread that waits for it",
 statement="The future of as_promise() becomes ready when the awaitable finished, on whichever thread, with its value (or reference) or exception; join_future() becomes ready when all tasks of the scope ended, after which the scope may be destroyed; the main() of async_main.h runs async_main to its end and returns its value or throws its exception. Awaiting defer resumes the coroutine exactly once, on the target dispatcher (at once without one), or throws what the dispatcher's push threw. launch() starts its awaitable at once and keeps it alive until it ended, exactly once.",
 over=["schedules", "inputs"], q="Every form of completion, any value, void, value or reference results; completion on another thread at every point of the wait; up to 3 tasks; up to 4 defers over 3 dispatchers with a refusal anywhere.", why="Tests complete the coroutine before or long after the wait begins.",
 files=[I + "sync_wait.h", I + "launch.h", I + "async_main.h", I + "defer.h"], mech=[("as_promise", "sync_wait.h: as_promise"), ("join_future", "launch.h: async_launch_scope::join_future"), ("main", "async_main.h: main"), ("defer", "defer.h: defer::await_suspend")]),
]
