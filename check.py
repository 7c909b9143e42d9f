#!/usr/bin/env python3-vt
"""check.py <property>: prove every obligation of the property from /repo's current sources.
exit 0: all discharged;  exit 1: VIOLATION line."""
import os, sys, time, json, re, subprocess, tempfile, shutil, importlib.util, signal
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/engine")
SEED = int(os.environ.get("VERIF_SEED", "1")); TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
import prove, ir
T0 = time.time()

def load(pid):
    sp = importlib.util.spec_from_file_location("prop_" + pid, "%s/props/%s.py" % (VERIF, pid)); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m

def compile_part(i, part):
    try:
        return prove.compile_ir("%s/proofs/%s" % (VERIF, part["tu"]), flags=part.get("flags", ()), roots=part.get("roots", ("^prove_",)), keep=part.get("keep", ()), tag="_%d_" % i, **({"passes": part["passes"]} if "passes" in part else {})), None
    except prove.BuildError as e: return None, str(e)

def native_build(tu, flags, extra, out):
    """compile and link a program around the real sources; what is left undefined (code that is never reached) is stubbed"""
    srcs = [tu] + [e for e in extra if e.endswith(".cpp")]; opts = [e for e in extra if not e.endswith(".cpp")]
    san = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,function,null", "-fno-sanitize-recover=all"]
    objs = []; procs = []
    for k, c in enumerate(srcs):
        o = "%s.%d.o" % (out, k); objs.append(o)
        procs.append(subprocess.Popen([prove.CXX] + prove.BASE + prove.INC + list(flags) + opts + ["-g1", "-O1"] + san + ["-c", c, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    errs = [p.communicate()[1] for p in procs]
    if any(p.returncode for p in procs): return False, "".join(errs)[-3000:]
    link = [prove.CXX] + san + ["-rdynamic"] + objs
    r = subprocess.run(link + ["-Wl,--unresolved-symbols=ignore-all", "-o", out], capture_output=True, text=True)
    if r.returncode: return False, r.stderr[-3000:]
    syms = [l.split()[-1] for l in subprocess.run(["nm", "-u", out], capture_output=True, text=True).stdout.splitlines()]
    data = [x for x in syms if "@" not in x and re.match(r"_ZT[ISV]N?\w*1m", x) or re.match(r"_ZN1m.*(_E|E)$", x) and "@" not in x]
    if data:
        open(out + ".s", "w").write(".data\n" + "".join(".globl %s\n.type %s,@object\n.balign 16\n%s: .zero 256\n.size %s,256\n" % (x, x, x, x) for x in data) + '.section .note.GNU-stack,"",@progbits\n')
        r = subprocess.run(link + [out + ".s", "-Wl,--unresolved-symbols=ignore-all", "-o", out], capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-3000:]

SYSTEM = "backend/Interpreter backend/InterpreterOperator backend/StackMachine catalog IR io lex parse storage util mutable Options".split()
def build_system(tu, out, log):
    """the whole system but its WebAssembly backend and its programs, with a driver"""
    srcs = []
    for s in SYSTEM:
        p = prove.REPO + "/src/" + s
        srcs += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".cpp") and f not in ("HeuristicSearchPlanEnumerator.cpp", "WebSocketServer.cpp")) if os.path.isdir(p) else [p + ".cpp"]
    srcs = [s for s in srcs if os.path.exists(s)]
    def one(s):
        o = out + "_" + re.sub(r"\W", "_", os.path.relpath(s, prove.REPO)) + ".o"
        r = subprocess.run([prove.CXX] + prove.BASE + prove.INC + ["-I" + VERIF + "/replay", "-O0", "-g0", "-c", s, "-o", o], capture_output=True, text=True)
        return o, r.stderr[-800:] if r.returncode else None
    with ThreadPoolExecutor(8) as pool: rs = list(pool.map(one, [tu] + srcs))
    errs = [e for _, e in rs if e]
    if errs: return False, errs[0]
    r = subprocess.run([prove.CXX, "-rdynamic"] + [o for o, _ in rs] + ["-fuse-ld=lld", "-Wl,--unresolved-symbols=ignore-all", "-o", out], capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-3000:]

def run_native(cmd, limit):
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:allocator_may_return_null=1"; env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:print_stacktrace=0"
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=limit, env=env, cwd=prove.scratch())
        return r.returncode, (r.stdout[-3000:] + "\n" + r.stderr[-3000:]).strip()
    except subprocess.TimeoutExpired: return 0, "time limit"

def replay(prop, parts, failures, log):
    """run the verifier's counterexamples, then a search, against the real code: -> description of a concrete failure or None"""
    d = prove.scratch(); tasks = []
    budget = getattr(prop, "REPLAY_SECS", 15)
    failing = {}
    for f in failures:
        for nm in ([f["root"]] if f.get("root") else []):
            failing.setdefault((f["part"], nm), []).append(f.get("inputs") or {})
    builds = {}
    def get(part_i):
        p = parts[part_i]; out = "%s/native%d" % (d, part_i)
        ok, err = native_build(VERIF + "/harness/native.cpp", p.get("flags", ()), ["%s/proofs/%s" % (VERIF, p["tu"]), "-DNATIVE"], out)
        return (out if ok else None), err
    custom = getattr(prop, "REPLAY", None)
    jobs = []
    if getattr(prop, "REPLAY_SQL", None):
        ok, err = build_system("%s/replay/sql.cpp" % VERIF, d + "/sql", log)
        if ok: jobs += [("replay/sql.cpp " + m, [d + "/sql", str(4 * budget), str(SEED + 1000 * i), m]) for i, m in enumerate(prop.REPLAY_SQL)]
        else: log.append("building the system for the replay failed: " + err)
    with ThreadPoolExecutor(8) as pool:
        want = sorted({i for i, p in enumerate(parts) if p.get("native", True) and any(f["part"] == i for f in failures)})
        fb = {i: pool.submit(get, i) for i in want}
        cb = []
        for c in ([custom] if isinstance(custom, str) else (custom or [])):
            out = d + "/custom_" + re.sub(r"\W", "_", c)
            cb.append((c, out, pool.submit(native_build, "%s/replay/%s" % (VERIF, c), getattr(prop, "REPLAY_FLAGS", ()), (), out)))
        for c, out, fu in cb:
            ok, err = fu.result()
            if ok: jobs.append(("replay/" + c, [out, str(budget), str(SEED)]))
            else: log.append("building replay/%s failed: %s" % (c, err))
        for i in want:
            exe, err = fb[i].result()
            if not exe: log.append("native build of %s failed: %s" % (parts[i]["tu"], err)); continue
            roots = {r for (pi, r) in failing if pi == i} or set(parts[i].get("_roots", []))
            skip = parts[i].get("no_replay")
            for r in sorted(roots):
                if skip and re.search(skip, r): continue
                hs = [h for h in failing.get((i, r), []) if h][:4] or [{}]
                for h in hs: jobs.append((parts[i]["tu"] + ":" + r, [exe, r, str(budget), str(SEED)] + ["%s=%d" % kv for kv in h.items()]))
        res = list(pool.map(lambda j: (j, run_native(j[1], budget * (5 if "/sql" in j[1][0] else 2) + 90)), jobs))
    hit = None
    for (n, cmd), (rc, out) in res:
        log.append("native %s -> exit %d: %s" % (n, rc, out[-1500:]))
        if rc not in (0, 2) and hit is None: hit = "%s: %s" % (n, out[-1500:])
    return hit

def main():
    pid = sys.argv[1]; prop = load(pid); parts = prop.PARTS
    own = not os.environ.get("VERIF_SCRATCH"); prove.scratch()
    try: rc = check(pid, prop, parts)
    finally:
        if own: shutil.rmtree(os.environ["VERIF_SCRATCH"], ignore_errors=True)
    sys.exit(rc)

def check(pid, prop, parts):
    budget = 620
    prove.irdump_bin()
    failures = []; undecided = []
    lemmas = [(l, subprocess.Popen(["lean", VERIF + "/proofs/" + l], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for l in getattr(prop, "LEMMAS", [])]
    with ThreadPoolExecutor(8) as pool: comp = list(pool.map(lambda ip: compile_part(*ip), enumerate(parts)))
    jobs = []; meta = []
    for i, (path, err) in enumerate(comp):
        if err:
            failures.append({"part": i, "root": None, "obligation": "the contracts of %s compile against the code" % parts[i]["tu"], "status": "build", "detail": err}); continue
        m = ir.Module(path); roots = [r for r in m.roots if r.startswith("prove_") and re.search(parts[i].get("only", ""), r)]; parts[i]["_roots"] = roots
        miss = [r for r in parts[i].get("expect", []) if r not in roots]
        for r in roots:
            if parts[i].get("thorough_only") and re.search(parts[i]["thorough_only"], r) and TIER != "thorough": continue
            jobs.append((path, r, parts[i].get("opts"), parts[i].get("timeout", 40) * (3 if TIER == "thorough" else 1), min(parts[i].get("deadline", 240) * (2 if TIER == "thorough" else 1), 560))); meta.append(i)
    order = sorted(range(len(jobs)), key=lambda k: -parts[meta[k]].get("weight", 0))
    rs = prove.run_jobs([jobs[k] for k in order], 8); res = [None] * len(jobs)
    for k, r in zip(order, rs): res[k] = r
    nob = ndis = 0; backends = {}; solver = 0.0; fns = set(); contracts = set(); kinds = {}; per = []; ncov = 0; loops = {}
    for i, r in zip(meta, res):
        solver += r["solver_s"]; fns |= set(r["functions"]); contracts |= set(r["contracts"])
        for k, v in r["loops"].items(): loops[r["root"] + ":" + k] = v
        if r["error"]: failures.append({"part": i, "root": r["root"], "obligation": "verification conditions of %s can be generated" % r["root"], "status": "error", "detail": r["error"] + "\n" + r.get("trace", "")})
        bad = 0
        for n, kind, loc, status, be, secs, inp in r["obligations"]:
            nob += 1; kinds[kind] = kinds.get(kind, 0) + 1
            if status == "proved": ndis += 1; backends[be] = backends.get(be, 0) + 1
            else: bad += 1; failures.append({"part": i, "root": r["root"], "obligation": n, "kind": kind, "at": loc, "status": status, "backend": be, "seconds": secs, "inputs": inp})
        if not r["error"] and not [o for o in r["obligations"]]: failures.append({"part": i, "root": r["root"], "obligation": "root %s generates obligations" % r["root"], "status": "vacuous"})
        if not r["error"]:
            ncov += len(r["covers"])
            for n, s in r["covers"]:
                if s == "unsat": failures.append({"part": i, "root": r["root"], "obligation": "contract precondition satisfiable / reachable: %s" % n, "status": "vacuous"})
            if not r["covers"] and not parts[i].get("nocover"): failures.append({"part": i, "root": r["root"], "obligation": "root %s reaches a vacuity witness" % r["root"], "status": "vacuous"})
        per.append({"root": r["root"], "unit": parts[i]["tu"], "obligations": len(r["obligations"]), "undischarged": bad, "wall_s": r["wall_s"], "solver_s": round(r["solver_s"], 2), "queries": r["queries"]})
    for l, p in lemmas:                               # lemmas of mathematics, by the proof assistant
        try: out = p.communicate(timeout=300)[0]
        except subprocess.TimeoutExpired: p.kill(); out = "timeout"
        nob += 1; kinds["lemma"] = kinds.get("lemma", 0) + 1
        if p.returncode == 0 and "sorry" not in out: ndis += 1; backends["lean"] = backends.get("lean", 0) + 1
        else: failures.append({"part": 0, "root": None, "obligation": "lemma " + l, "kind": "lemma", "status": "unknown", "backend": "lean", "detail": out[-1500:]})
    if not jobs and not failures: failures.append({"part": 0, "root": None, "obligation": "there are contracts to check", "status": "vacuous"})
    known = json.load(open(VERIF + "/known_findings.json")) if os.path.exists(VERIF + "/known_findings.json") else {"findings": []}
    kf = [k for k in known.get("findings", []) if k["property"] == pid]
    rest = []
    matched = set()
    for f in failures:
        for n, k in enumerate(kf):
            if k.get("root") == f.get("root") and re.fullmatch(k.get("obligation", ""), f["obligation"]) and f["status"] == "failed": matched.add(n); break
        else: rest.append(f)
    violations = 0; hit = None; log = []; rc = 0
    for n, k in enumerate(kf): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"])) if n in matched or k.get("always") else None
    if rest:
        violations = 1; rc = 1
        try: hit = replay(prop, parts, rest, log)
        except Exception as e: log.append("replay error: %r" % e)
        os.makedirs(VERIF + "/out", exist_ok=True); rp = "%s/out/%s-replay.txt" % (VERIF, pid)
        with open(rp, "w") as f:
            f.write("property %s: undischarged obligations\n" % pid)
            for x in rest: f.write(json.dumps(x, indent=1).replace("\\n", "\n") + "\n")
            f.write("\n-- concrete replay against the real code --\n" + ("CONFIRMED " + hit if hit else "no failing input found") + "\n\n" + "\n".join(log) + "\n")
        for x in rest[:12]: print("undischarged: [%s] %s %s (%s)" % (x.get("root"), x["obligation"], x.get("at", ""), x["status"]), (x.get("detail") or "")[:600])
        if hit: print("confirmed on the real code: " + hit[-800:])
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if hit else " no-failing-input-found"))
    engine_assump = ["the LLVM 18 front end and the listed optimisation passes translate the C++ faithfully", "the VC generator in engine/sym.py and its IR reader are correct",
                     "SMT back ends (z3, cvc5) are sound", "heap allocation always succeeds and returns fresh, disjoint, 16-byte aligned storage"]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "proof",
          "coverage": {"obligations": nob, "discharged": ndis, "checker_cmd": "python3-vt check.py %s" % pid,
                       "trusted_base": engine_assump + list(getattr(prop, "TRUSTED", [])),
                       "functions_under_contract": list(getattr(prop, "FUNCTIONS", [])), "functions_verified": sorted(f.replace(prove.REPO + "/", "") for f in fns if prove.REPO + "/" in f),
                       "contracts_assumed_at_calls": sorted(contracts), "backends": backends, "obligation_kinds": kinds, "solver_s": round(solver, 1), "vacuity_witnesses": ncov,
                       "inductive_invariants": {k: v[:40] for k, v in loops.items()}, "roots": per, "bounded": list(getattr(prop, "BOUNDED", []))},
          "assumptions": list(getattr(prop, "ASSUMPTIONS", [])) + engine_assump, "wall_s": round(time.time() - T0, 1), "violations": violations}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d roots, %.1fs" % (pid, nob, ndis, len(jobs), time.time() - T0))
    return rc

if __name__ == "__main__": main()
