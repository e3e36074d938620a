#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (fix commits of /repo) and the recorded ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {  # subject of the fix commit -> property, what failed
 "fix: timer durations beyond the last point in time do not expire at once": ("C33", "schedule() or wait() with a duration such as nanoseconds::max() overflowed the clock and was invoked with true at once"),
 "fix: a timed get of a promise with a huge timeout does not give up at once": ("C13", "get(nanoseconds::max()) overflowed the clock and returned nothing at once"),
 "fix: assigning over a signal unlinks its callbacks with the mutex held": ("C35", "data race between the invocation of a signal on one thread and a move assignment over it on another"),
 "fix: moving a signal keeps callbacks that are added concurrently invocable": ("C35", "a callback appended while the signal was moved from (or over) was connected and never invoked, its counter being ahead of the signal's"),
 "fix: multi_consumer_event::set() reports a resumed waiter only if there was one": ("C03", "set() on an event without waiters claimed to have resumed one"),
 "fix: multi_consumer_auto_reset_event waits acquire the set state and never drop other waiters": ("C04", "a wait racing with a set dropped the other waiters; data written before the set was not ordered before the wait"),
 "fix: latch releases its waiters when the counter reaches zero": ("C08", "the counter reached zero without releasing the waiters"),
 "fix: channel write() returns true when it hands its value to a waiting reader": ("C09", "a successful write reported failure"),
 "fix: channel read() does not suspend on a channel closed concurrently": ("C10", "a read racing with close() was suspended for ever"),
 "fix: queue with a capacity of zero hands values from suspended pushes to pops": ("C11", "with capacity zero a suspended push was never matched with a pop"),
 "fix: queue::try_emplace keeps the waiting pop if constructing the value throws": ("C12", "a throwing element constructor lost the waiting pop"),
 "fix: thread_safe_refcount orders earlier uses of the object before its destruction": ("C15", "data race between the last uses of an object on one thread and its destruction on another"),
 "fix: assigning to a ref keeps the new object alive while the old one is released": ("C15", "use after free when the old object owned the new one, and on self-reset"),
 "fix: promise_first_successful is not rejected while one of its arguments is being fulfilled": ("C14", "two arguments, one fulfilled and one rejected concurrently: the combination was rejected"),
 "fix: promise_all without arguments is fulfilled": ("C14", "promise_all() stayed pending for ever"),
 "fix: threadsafe_queue can be copied": ("C21", "copying or copy-assigning a threadsafe_queue did not compile (locks a const mutex)"),
 "fix: move-assigning a stop_source releases the stop state it held": ("C19", "after a source was overwritten by a move its tokens still reported that a stop was possible"),
 "fix: generators of references compile": ("C23", "generator<T&> did not compile"),
 "fix: async_generators of references compile": ("C24", "async_generator<T&> and async_generator<T&&> did not compile"),
 "fix: coroutine frames from stateful allocators are aligned and the stored allocator is destroyed": ("C27", "with a stateful allocator of 8 bytes frames were placed at addresses that are not a multiple of 16; the stored copy of the allocator was never destroyed"),
 "fix: exception_policy::ignore ignores exceptions": ("C25", "with exception_policy::ignore an exception terminated the program"),
 "fix: fire_and_forget_task releases itself only after it has suspended": ("C25", "a coroutine ending on one thread was destroyed by its last owner on another thread while it was still suspending"),
 "fix: fire_and_forget_task copies can not be started twice": ("C25", "start() on a second copy resumed the running coroutine again"),
 "fix: async_launch_scope resumes a join exactly once and does not touch a destroyed scope": ("C26", "join racing with the last task: resumed twice, or the scope was used after the joiner destroyed it; a stale continuation stayed behind"),
 "fix: simple_dispatcher::run() does not miss a concurrent stop()": ("C32", "a stop() just before run() began was forgotten and run() did not return"),
 "fix: simple_dispatcher::run() restores the current dispatcher when a callback throws": ("C31", "after an exception from a callback the current dispatcher stayed set"),
 "fix: thread_pool::push() from a worker of another pool uses the right pool": ("C30", "a callback pushed into another pool ran on the pushing worker's own pool"),
 "fix: thread_pool does not lose or repeat tasks pushed or stolen while it shrinks": ("C30", "tasks pushed to or stolen from a worker that a resize was ending were lost; assertion failure and use after free"),
 "fix: timer cancellation does not race with or deadlock against schedule() and expiry": ("C34", "a stop racing with expiry deadlocked, with schedule() it raced; the queue was changed without the lock; an empty callback leaked"),
 "fix: timer shutdown invokes callbacks that are cancelled meanwhile": ("C34", "a stop during the destruction of the timer lost the callback or raced with it"),
 "fix: signals can be move-assigned, prepended to and take lvalue callables": ("C35", "signal's move assignment had no return, prepend() and append() of an lvalue did not compile"),
 "fix: callbacks added to a signal during an invocation are not invoked by it": ("C35", "the first callback appended by a callback was invoked by the same invocation, later ones were not"),
 "fix: signal nodes are unlinked only once": ("C35", "a callback removed while it ran was unlinked again afterwards with outdated neighbours: use after free, lost callbacks"),
 "fix: signals destroy callbacks after releasing their mutex": ("C35", "a callback object whose destructor uses the signal deadlocked the invocation that dropped it"),
 "fix: signal_manager can be used while callbacks run and does not drop slots in use": ("C36", "shrink_to_fit() or append() in a callback deadlocked; append() racing with shrink_to_fit() used a freed slot"),
 "fix: signal_manager can be moved": ("C36", "the move operations were declared but not defined"),
 "fix: a suspended fiber is not touched after its await_suspend returned": ("C29", "a fiber that was resumed (and ended or was destroyed) by its await_suspend or by another thread before resume() returned: use after free, or its awaiting coroutine was resumed twice"),
 "fix: destroying a suspended fiber does not resume the coroutine awaiting it": ("C29", "destroying a coroutine together with the suspended fiber it awaits resumed that coroutine during its destruction"),
 "fix: reject fiber stack sizes that overflow and never create empty stacks": ("C28", "size 0 gave a stack without a usable page; sizes near the maximum wrapped around to tiny stacks"),
 "fix: fibers start with valid floating point control words": ("C28", "the first switch loaded MXCSR = 0 and x87 control word 0, which unmasks all floating point exceptions: an inexact operation in a fiber ended the program with SIGFPE"),
 "fix: restore the stack guard to its TLS slot when switching fibers": ("C28", "with SAVE_TLS_STACK_PROTECTOR the stack guard was written to %fs:28 instead of %fs:0x28"),
 "fix: async_launch_scope::invoke copies callables passed as lvalues into the task": ("C26", "a callable passed as lvalue was kept by reference: a task continuing after the callable was destroyed used its captures after their scope"),
 "fix: threadsafe_queue lvalues can be copied by construction": ("C21", "threadsafe_queue<T> b(a) with a non-const a did not compile: the forwarding constructor was chosen over the copy constructor"),
 "fix: atomic_ref keeps the reference count balanced when it refuses a pointer": ("C16", "store, exchange and assignment of a pointer that collides with the lock bit threw std::logic_error as documented but lost the reference passed in"),
 "fix: fibers can await lvalues and return move-only results": ("C29", "fib_await of an lvalue and co_await of an rvalue fiber with a move-only result did not compile"),
}
KNOWN = []
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
out = [{"property": p, "status": "fixed", "commit": log[s], "what": f"fixed: property={p} {log[s]} {w}"} for s, (p, w) in FIXED.items()] + KNOWN
left = [s for s in log if s.startswith("fix:") and s not in FIXED]; assert not left, left
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
