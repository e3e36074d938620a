#!/usr/bin/env python3
"""Writes DESIGN.md: the head, one section per property, repaired defects, planted bugs."""
import os, sys, re, json, glob
sys.path.insert(0, os.path.dirname(__file__)); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
O = {
"C01": "counts of resumptions per waiter, a plain variable written before set() and read after the wait (race check), set()'s result against the abstract state",
"C02": "a counter model: sets consumed = waits released, never more; histories against a one-bit state machine",
"C03": "each waiter resumed exactly once iff a set came at or after its registration; later waits do not suspend",
"C04": "number of releases = number of sets while waiters exist; nobody left waiting with the event set; histories against a state machine",
"C05": "a recording dispatcher: who got the resumption, how often, and which dispatcher is current in the coroutine",
"C06": "a plain owner variable inside the critical section (mutual exclusion and race check), arrival order of histories, everybody done at the end",
"C07": "a model of who owns what after each operation; is_locked() of both mutexes must agree",
"C08": "no waiter runs before the count is zero, all do afterwards, plain data written before decrement() is read after the wait",
"C09": "multiset and per-writer order of delivered values; histories against a sequential channel (waiting readers, waiting writers)",
"C10": "every operation in flight completes with the documented result; nothing stays suspended after close()",
"C11": "every value exactly once, per-pusher order; histories against a sequential bounded queue with waiting pushers and poppers",
"C12": "histories against the sequential model with clear/move/throwing elements; object counts for leaks",
"C13": "exactly one of the settlers reports success and every observer sees its value; callback object counts; virtual time for timed gets of any length (a get that gives up has waited its time); a far timeout may not be what releases a get",
"C14": "the result allowed by the settling order (computed from recorded order), settled exactly when required, once",
"C15": "destructor count, use of the object before (race check against the destruction), refcount equals the number of handles of the model",
"C16": "linearizability of results with unique objects; use counts of every object; everything alive that is handed out",
"C17": "round trip equations over all 64-bit pointers and tags",
"C18": "a log of calls against the engaged flags of a model",
"C19": "histories against a model of the standard's specification (states, owners, requested flag, callbacks)",
"C20": "one winner; call counts; a plain flag set after removal returned (race check and value) shows late calls",
"C21": "multiset and order of elements; histories against two sequential queues; object counts",
"C22": "a trace of body, awaiter and destructor events; object counts of results, locals, parameters; exceptions also after co_return",
"C23": "the produced sequence of a reference body run in parallel; addresses of yielded objects; live object counts",
"C24": "as C23, plus which consumer is resumed and how often",
"C25": "run count, frame allocation count, policy calls; expected termination",
"C26": "resumptions of the joiner, tasks ended before, the scope destroyed by the joiner at once (lifetime check)",
"C27": "an allocator that keeps a ledger (address, size, instance); alignment of every frame; copies of allocators alive",
"C28": "a model of each context's registers; address arithmetic over all 64-bit sizes with recorded mmap/mprotect/munmap calls",
"C29": "counts of each step of each await, values, live locals, live mappings, current-fiber marker after every operation",
"C30": "run count per accepted callback, current dispatcher in the callback, plain data written before push and read in the callback; size() after resizes, also after two at the same time; the workers' poll fires only when nothing else can happen (more than eight polls in a row: nontermination)",
"C31": "dispatcher::current() at every point against a model stack; in every callback of a pool, also while it shrinks or shuts down",
"C32": "the sequence of executed callbacks against the pushes; end of run() against stop()",
"C33": "call count per callback, virtual time at the call, argument value, everything invoked by the end of the destruction; a variant without any timeout, where a missing wakeup is a deadlock; a callback that is due is not late; durations of any size up to the largest",
"C34": "call count = 1 with the right result for expiry or cancellation; no call after stop returned; the same without any timeout; memory released",
"C35": "calls per callback and invocation against connection intervals; order for callbacks connected before; object counts",
"C36": "as C35 per event; size() against the events that must or may have slots",
"C37": "results against the inputs, a plain variable written before the resumption and read after the wait, object counts, resumption counts and places",
}
SC = {}
for f in sorted(glob.glob(V + "/harness/*.cpp")):
    for l in open(f):
        if l.startswith("//@ "):
            w = l[4:].split()
            for p in w[0].split(","): SC.setdefault(p, []).append((os.path.basename(f), w[1], w[2], " ".join(w[3:])))
out = [open(os.path.dirname(__file__) + "/DESIGN.head.md").read(), "## The properties\n\n"]
for p in P:
    s = SC.get(p["id"], []); q = [x for x in s if x[2] != "thorough"]; t = [x for x in s if x[2] == "thorough"]
    out.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n\n* Decided by: symbolic execution of {', '.join(x.replace('include/asyncpp/', '') for x in p['files'])} in `harness/{sorted(set(x[0] for x in s))[0]}`; oracle: {O[p['id']]}.\n* Quantified over: {p['q']}\n* Why not by tests: {p['why']}\n* Bounds, quick tier: " + "; ".join(f"`{x[1]}` ({x[3].replace('-D', '')})" for x in q) + "\n" + ("* In addition, thorough tier: " + "; ".join(f"`{x[1]}` ({x[3].replace('-D', '')})" for x in t) + "\n" if t else "") + (f"* Note: {p['note']}\n" if "note" in p else "") + "\n")
if NA: out.append("## Not applicable\n\n" + "".join(f"* {k}: {v}\n" for k, v in NA.items()) + "\n")
k = json.load(open(V + "/known_findings.json"))
out.append("## Defects found\n\nRepaired (`fix:` commits in /repo; the checks report them again if they return):\n\n" + "".join(f"* {x['property']} {x['commit']}: {x['what'].split(' ', 3)[3]}\n" for x in k if x["status"] == "fixed") + "\nRecorded, not repaired: " + ("none.\n\n" if all(x["status"] == "fixed" for x in k) else "\n\n" + "".join(f"* {x['property']}: {x['what']}\n" for x in k if x["status"] != "fixed") + "\n"))
out.append("## Planted bugs (seeded/)\n\nEach was written from the property and the code, confirmed with its demonstration and the existing tests, then run against the check of its property.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); out.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, m['property'])} |\n")
open(V + "/DESIGN.md", "w").write("".join(out))
