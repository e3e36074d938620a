#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only NAME] [--keep] [--replay FILE]

Decides one property: compiles each harness of the property against /repo's current headers to LLVM IR,
executes it symbolically (build/vpe, z3), replays a counterexample on the natively compiled code, and
writes evidence/<property>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import sys, os, re, json, subprocess, time, hashlib, shutil, glob, concurrent.futures as cf, tempfile, threading
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VP_REPO", "/repo"); B = V + "/build"
CXX = "/usr/lib/llvm-18/bin/clang++"; LINK = "llvm-link-18"; OPT = "opt-18"
BASE = ["-std=c++20", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything", f"-I{REPO}/include", f"-I{V}/rt", f"-I{V}/harness"]
IRF = BASE + ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"]
PASSES = "coro-early,cgscc(coro-split),coro-cleanup,function(sroa,instsimplify),globaldce"

def sh(cmd, timeout=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", env=env)
    return p.returncode, p.stdout

class Scn: pass
def scenarios(prop, tier):
    out = []
    for f in sorted(glob.glob(V + "/harness/*.cpp")):
        for line in open(f):
            if not line.startswith("//@ "): continue
            w = line[4:].split()
            props = w[0].split(",")
            if prop not in props: continue
            if w[2] == "thorough" and tier != "thorough": continue
            if w[2] == "quickonly" and tier == "thorough": continue
            s = Scn(); s.file = f; s.name = w[1]; s.tier = w[2]; s.known = False; rest = w[3:]
            s.defs = []; s.opts = []; tgt = s.defs
            for x in rest:
                if x == "--": tgt = s.opts
                else: tgt.append(x)
            out.append(s)
    names = [s.name for s in out]; assert len(names) == len(set(names)), "duplicate scenario names"
    return out

def cached_rt():
    os.makedirs(B, exist_ok=True); r = []
    for n in ("rt", "rt_engine"):
        src = f"{V}/rt/{n}.cpp"; h = hashlib.sha256((open(src).read() + open(V + "/rt/rt.h").read() + open(V + "/rt/vp.h").read()).encode()).hexdigest()[:16]
        o = f"{B}/{n}-{h}.bc"
        if not os.path.exists(o):
            tmp = f"{o}.{os.getpid()}"; rc, t = sh([CXX] + IRF + [src, "-o", tmp])
            if rc: raise SystemExit("rt: " + t)
            os.replace(tmp, o)
        r.append(o)
    for san in ("address", "thread"):
        src = V + "/rt/native.cpp"; h = hashlib.sha256((open(src).read() + open(V + "/rt/rt.h").read() + open(V + "/rt/vp.h").read()).encode()).hexdigest()[:16]
        o = f"{B}/native-{san}-{h}.o"
        if not os.path.exists(o):
            tmp = f"{o}.{os.getpid()}"; rc, t = sh([CXX, "-std=c++20", "-O1", "-g", f"-I{V}/rt", "-c", src, "-o", tmp])
            if rc: raise SystemExit("native: " + t)
            os.replace(tmp, o)
        r.append(o)
    return r

def compile_ir(s, wd, rt):
    base = f"{wd}/{s.name}"
    cmd = [CXX] + IRF + s.defs + [s.file, "-o", base + ".h.bc"]
    rc, t = sh(cmd, 300)
    if rc: rc, t = sh(cmd + ["-include", V + "/rt/std.h"], 300)
    if rc: return t
    rc, t = sh([LINK, base + ".h.bc", rt[0], rt[1], "-o", base + ".l.bc"], 120)
    if rc: return t
    rc, t = sh([OPT, base + ".l.bc", "-passes=" + PASSES, "-o", base + ".bc"], 120)
    os.unlink(base + ".h.bc"); os.unlink(base + ".l.bc")
    return t if rc else None

def native_build(s, wd, rt, san):
    base = f"{wd}/{s.name}"; exe = f"{base}-{os.path.basename(s.file)[:-4]}-.{san}"
    if os.path.exists(exe): return exe, ""
    rc, t = sh([B + "/vpe", base + ".bc", "--native", base + f".{san}.bc"] + (["--tsan"] if san == "thread" else []), 120)
    if rc: return None, t
    rc, t = sh([CXX, "-O0", "-g", f"-fsanitize={san}", "-Wno-everything", "-x", "ir", base + f".{san}.bc", "-x", "none", rt[2 if san == "address" else 3], "-o", exe, "-lpthread"], 300)
    os.unlink(base + f".{san}.bc")
    return (exe if rc == 0 else None), t

def native_run(exe, trace):
    uar = "0" if "-fiber-" in exe else "1" # ASan's fake stacks belong to a thread, fibers move between threads
    env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:detect_stack_use_after_return=" + uar + ":abort_on_error=0:handle_abort=0:color=never:new_delete_type_mismatch=1", TSAN_OPTIONS="exitcode=98:halt_on_error=1:report_thread_leaks=0:history_size=5:color=never:report_signal_unsafe=0")
    try: return sh(["setarch", "-R", exe, trace] if "thread" in exe.rsplit(".", 1)[-1] else [exe, trace], 60, env)
    except subprocess.TimeoutExpired: return 15, "VP-TIMEOUT"

CONFIRM = {"property": (10,), "assert": (18, 99, 11), "data-race": (98,), "use-after-free": (99,), "use-after-scope": (99,), "out-of-bounds": (99,), "null-deref": (99,), "double-free": (99,), "bad-free": (99,), "leak": (17,), "deadlock": (16, 14, 15), "terminate": (11,), "nontermination": (15, 16, 14), "bad-call": (99,), "unreachable": (99, 18), "std-throw": (11,), "div-by-zero": (99, 136, -8)}

DEADLINE = time.time() + float(os.environ.get("VP_DEADLINE", "780" if os.environ.get("VERIF_TIER", "quick") == "quick" and "thorough" not in sys.argv else "1e9"))
def run_scn(s, wd, rt, tier, seed, tlimit, sem):
    with sem:
        t0 = time.time(); r = {"name": s.name, "file": os.path.basename(s.file), "defs": s.defs}
        err = compile_ir(s, wd, rt)
        if err: r.update(status="error", why="compile: " + " ".join(l for l in err.splitlines() if "error" in l)[:700]); return r
        r["compile_s"] = round(time.time() - t0, 2)
        js, tr = f"{wd}/{s.name}.json", f"{wd}/{s.name}.trace"
        # the scenario's own bounds first; if its budget runs out (a rewritten implementation may take more steps), the
        # same scenario again with a smaller bound on preemptions, which the evidence then reports
        given = int(s.opts[s.opts.index("--preempt") + 1]) if "--preempt" in s.opts else 99
        for n, pre in enumerate([None] + [p for p in (2, 1, 0) if p < given]):
            lim = min(tlimit * (1, .6, .5, .4)[n], DEADLINE - time.time())
            if n and lim < 5: break
            opts = s.opts if pre is None else ([o for i, o in enumerate(s.opts) if o != "--preempt" and (i == 0 or s.opts[i - 1] != "--preempt")] + ["--preempt", str(pre)])
            try: rc, t = sh([B + "/vpe", f"{wd}/{s.name}.bc", "--out", js, "--trace", tr, "--seed", str(seed), "--time", str(int(lim))] + opts, lim + 200)
            except subprocess.TimeoutExpired: r.update(status="inconclusive", why="engine did not stop in time"); continue
            try: j = json.load(open(js))
            except Exception as e: r.update(status="error", why=f"engine exit {rc}: {t[-1500:]}"); return r
            r.pop("why", None); r.update(j)
            if not (r["status"] == "inconclusive" and re.search("budget|too many states|solver answered unknown|step bound", r.get("why", ""))): break
            if r.get("threads", 2) < 2: break
        if n and r["status"] != "inconclusive": r["reduced"] = f"budget exhausted with the scenario's own bounds; explored with at most {pre} preemptions"
        r["native"] = None
        if r["status"] == "violation":
            san = "thread" if r["kind"] == "data-race" else "address"
            exe, msg = native_build(s, wd, rt, san)
            if not exe: r["native"] = {"confirmed": False, "why": "native build: " + msg[-800:]}
            else:
                rc, t = native_run(exe, tr); ok = rc in CONFIRM.get(r["kind"], (99,)) or rc in (99, 98)
                r["native"] = {"confirmed": ok, "exit": rc, "output": t[:3000]}
        return r

def validate(s, r, wd, rt):
    exe, msg = native_build(s, wd, rt, "address")
    if not exe: r["native"] = {"validated": False, "why": msg[-800:]}; return
    rc, t = native_run(exe, f"{wd}/{s.name}.trace"); r["native"] = {"validated": rc == 0, "exit": rc, "output": t[:600]}

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False; verbose = False
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--only": only = a[i + 1]; i += 1
        elif a[i] == "--keep": keep = True
        elif a[i] == "-v": verbose = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    rc, t = sh([V + "/engine/build.sh"])
    if rc: print(t); return 2
    rt = cached_rt(); scns = scenarios(prop, tier)
    if only: scns = [s for s in scns if s.name in only.split(",")]
    if not scns: print("no scenarios"); return 2
    wd = tempfile.mkdtemp(prefix=f"{prop}.", dir=B); jobs = int(os.environ.get("VP_JOBS", "8"))
    tlimit = float(os.environ.get("VP_TIME", "240" if tier == "quick" else "3000"))
    known = [k for k in json.load(open(V + "/known_findings.json")) if k.get("property") == prop and k.get("status") == "known"] if os.path.exists(V + "/known_findings.json") else []
    sem = threading.Semaphore(jobs); res = {}
    with cf.ThreadPoolExecutor(64) as ex:
        fut = {ex.submit(run_scn, s, wd, rt, tier, seed, tlimit, sem): s for s in scns}
        for f in cf.as_completed(fut): res[fut[f].name] = f.result()
        # replay a complete run of the model on the compiled code (translation check)
        okset = [s for s in scns if res[s.name]["status"] == "ok" and "--no-native" not in s.defs]
        vset = okset if tier == "thorough" else okset[:4]
        list(ex.map(lambda s: validate(s, res[s.name], wd, rt), vset))
    code = 0; nviol = 0; lines = []
    for s in scns:
        r = res[s.name]; st = r["status"]
        if r.get("reduced"): lines.append(f"note {prop}/{s.name}: {r['reduced']}")
        if st == "ok":
            miss = [g for g in r.get("reach_expected", []) if g not in r.get("reach", {})]
            if miss and not r.get("reduced"): lines.append(f"NO-ANSWER {prop}/{s.name}: witnesses never reached: {miss}"); code = code or 2
            elif r.get("native") and r["native"].get("validated") is False: lines.append(f"note {prop}/{s.name}: native run of the model trace differs: {r['native'].get('output','')[:300]} {r['native'].get('why','')[:300]}")
        elif st == "violation":
            k = next((k for k in known if k["scenario"] == s.name and k["kind"] == r["kind"] and re.search(k["match"], r["message"] + " @ " + r.get("where", "") + " | " + " | ".join(r.get("stack", [])))), None)
            if k: lines.append(f"KNOWN-FINDING: property={prop} {k['what']}"); r["known"] = True; continue
            d = f"{V}/replays"; os.makedirs(d, exist_ok=True); rp = f"{d}/{prop}-{s.name}.json"
            r["trace_file"] = open(f"{wd}/{s.name}.trace").read().splitlines() if os.path.exists(f"{wd}/{s.name}.trace") else []
            json.dump(r, open(rp, "w"), indent=1); nviol += 1
            lines.append(f"  {s.name}: {r['kind']}: {r['message']} at {r.get('where','')}"); 
            for x in r.get("stack", [])[:8]: lines.append("      " + x)
            lines.append(f"      native replay: {'confirmed' if r['native'] and r['native'].get('confirmed') else 'NOT confirmed'} ({(r['native'] or {}).get('exit')}) {((r['native'] or {}).get('output') or (r['native'] or {}).get('why') or '').strip().splitlines()[:2]}")
            lines.append(f"VIOLATION property={prop} replay={rp}")
        else:
            lines.append(f"NO-ANSWER {prop}/{s.name}: {st}: {r.get('why','')[:3000]}"); code = code or 2
    if nviol: code = 1
    wall = time.time() - t0; R = list(res.values()); tot = lambda k: sum(int(r.get(k, 0) or 0) for r in R)
    fns = sorted({f for r in R for f in r.get("functions", [])})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": nviol,
          "coverage": {"states": tot("states"), "transitions": tot("steps"), "traces_validated_against_impl": sum(1 for r in R if (r.get("native") or {}).get("validated") or (r.get("native") or {}).get("confirmed")),
              "obligations": tot("obligations"), "race_checks": tot("race_checks"), "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "answered_by_cached_model": tot("by_model"), "folded_by_the_term_simplifier": tot("syntactic"), "solver_seconds": round(sum(float(r.get("solver_s", 0) or 0) for r in R), 3), "instructions_executed_symbolically": tot("insts"), "merged_paths": tot("merges"), "known_findings": sum(1 for r in R if r.get("known")),
              "functions_encoded": fns,
              "bounds": [{"scenario": r["name"], "defs": r["defs"], "preemption_bound": r.get("preemption_bound"), "reduced_bound": r.get("reduced"), "status": r["status"], "visible_steps": r.get("layers"), "closing_query": r.get("closing_query"), "closing_query_s": r.get("closing_s"), "step_bound": r.get("max_layers"), "schedule_and_input_variables": r.get("schedule_vars"), "inputs": r.get("inputs"), "complete_runs_merged_into": r.get("finals"), "assertions": r.get("checks"), "witnesses": r.get("reach")} for r in R],
              "samples": [{"scenario": r["name"], "run": r.get("trace", [])[:60], "inputs": r.get("trace_inputs", []), "native": (r.get("native") or {}).get("exit")} for r in R[:4]]},
          "assumptions": ["interleavings of visible operations are sequentially consistent; orderings promised by the memory orders are checked by happens-before race detection", "heap addresses are never reused within a run", "pthread, futex, clock and C++ runtime functions follow the models in rt/", "bounds: the number of threads, operations and items fixed by each scenario"]}
    os.makedirs(V + "/evidence", exist_ok=True)
    if not only: json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for l in lines: print(l)
    slow = sorted(R, key=lambda r: -float(r.get("wall_s", 0) or 0))[:3]
    print(f"{prop} {tier}: {len(scns)} scenarios, {tot('states')} merged states, {tot('queries')} solver queries, {wall:.1f} s, exit {code}" + "; slowest " + ", ".join(f"{r['name']} {r.get('wall_s',0):.1f}s" for r in slow if r.get("wall_s")))
    if verbose:
        for s in scns: r = res[s.name]; print(" ", s.name, r["status"], "layers", r.get("layers"), "states", r.get("states"), "q", r.get("queries"), "t", r.get("wall_s"), "native", {k: v for k, v in (r.get("native") or {}).items() if k != "output"})
    if not keep: shutil.rmtree(wd, ignore_errors=True)
    else: print("kept", wd)
    return code
sys.exit(main())
