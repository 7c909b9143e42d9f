"""Compile the real sources with a harness, generate the obligations of every root, discharge them."""
import os, sys, re, json, time, subprocess, hashlib, multiprocessing, traceback, tempfile, shutil, signal
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, sym

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++-18"
INC = ["-I" + VERIF + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", "/opt/vp/include", "-isystem", "/usr/include/eigen3"]
BASE = ["-DM_ENABLE_SANITY_FIELDS", "-std=gnu++20", "-mavx2", "-mbmi2", "-mavx", "-msse4.2", "-mbmi", "-stdlib=libstdc++", "-w", "-fno-access-control"]
UBSAN = ["-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,float-cast-overflow", "-fsanitize-trap=all"]
PASSES = "function(sroa<modify-cfg>,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),always-inline,cgscc(inline),function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg,adce,instcombine<no-verify-fixpoint>,loop-simplify,lcssa)"

def scratch():
    d = os.environ.get("VERIF_SCRATCH")
    if not d:
        d = tempfile.mkdtemp(prefix="verif-"); os.environ["VERIF_SCRATCH"] = d
    return d

def irdump_bin():
    """the IR reader, built from engine/irdump.cpp"""
    src = VERIF + "/engine/irdump.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    b = VERIF + "/build/irdump-" + h
    if not os.path.exists(b):
        os.makedirs(VERIF + "/build", exist_ok=True)
        tmp = b + ".%d.tmp" % os.getpid()
        subprocess.run([CXX, "-std=gnu++17", "-O1", src, "-I/usr/lib/llvm-18/include", "-fno-rtti", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-o", tmp], check=True, capture_output=True)
        os.rename(tmp, b)
    return b

DEFAULT_KEEP = ("^m::([a-z_A-Z]+::)*(exception|logic_error|invalid_state|invalid_argument|out_of_range|runtime_error|frontend_exception|backend_exception)::~?[a-z_]+[(]", "^std::__cxx11::basic_string<char", "^std::__cxx11::to_string", "std::operator[+]<char", "^m::_insist", "^m::_abort", "[*] m::_notnull<")
class BuildError(Exception): pass

def compile_ir(tu, flags=(), roots=("^prove_",), keep=(), passes=PASSES, tag=""):
    d = scratch(); base = os.path.join(d, re.sub(r"\W", "_", os.path.basename(tu)) + tag + hashlib.md5(repr((flags, roots, keep, passes)).encode()).hexdigest()[:6])
    cmd = [CXX] + BASE + INC + UBSAN + ["-g1", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", tu, "-o", base + ".bc"] + list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError("compiling %s:\n%s" % (tu, r.stderr[-3000:]))
    r = subprocess.run([irdump_bin(), base + ".bc", base + ".json"] + ["--roots=" + x for x in roots] + ["--keep=" + x for x in tuple(keep) + DEFAULT_KEEP] + ["--passes=" + passes], capture_output=True, text=True)
    if r.returncode: raise BuildError("irdump %s: %s" % (tu, r.stderr[-2000:]))
    return base + ".json"

def model_inputs(m, ex=None):
    out = {}
    for nm, (arr, n) in (ex.in_arrays.items() if ex else ()):
        for i in range(n):
            v = m.eval(arr[i], model_completion=True)
            if z3.is_bv_value(v): out["%s[%d]" % (nm, i)] = v.as_long()
    for d in m.decls():
        n = d.name()
        if n.startswith("in_"):
            v = m[d]
            if z3.is_bv_value(v): out[n[3:]] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v): out[n[3:]] = int(z3.is_true(v))
    return out

def to_smt2(asserts):
    s = z3.Solver(); s.add(*asserts); return "(set-logic ALL)\n" + s.to_smt2()

def external(smt, timeout, which):
    d = scratch(); p = os.path.join(d, "q%d_%d.smt2" % (os.getpid(), int(time.time() * 1e6))); open(p, "w").write(smt)
    try:
        cmd = {"cvc5": ["cvc5", "--lang=smt2", p], "cvc5-bb": ["cvc5", "--lang=smt2", "--bitblast=eager", p], "z3-4.8": ["/usr/bin/z3", p], "z3-sat": ["/usr/local/bin/z3-new", "sat.euf=false", p]}[which]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout).stdout.split("\n")[0].strip()
        return r
    except subprocess.TimeoutExpired: return "timeout"
    finally:
        try: os.unlink(p)
        except OSError: pass

def discharge(ex, obl, timeout):
    """-> (status, backend, secs, inputs)"""
    t = time.time()
    c = sym.simp(obl.cond)
    if z3.is_true(c): return "proved", "simplifier", time.time() - t, None
    asserts = list(ex.axioms) + list(obl.pc) + [z3.Not(c)]
    r = z3.unknown
    light = [a for a in asserts[:-1] if not sym.heavy(a)] + asserts[-1:]
    if len(light) < len(asserts):                 # without the facts that are hard to reason about: a proof from fewer facts is a proof
        s = z3.Solver(); s.set("timeout", int(timeout * 250)); s.add(*light)
        if s.check() == z3.unsat: return "proved", "z3 " + z3.get_version_string(), time.time() - t, None
    s = z3.Solver(); s.set("timeout", int(min(timeout, 8) * 1000)); s.add(*asserts)
    r = s.check()
    if r == z3.unknown and timeout > 8:           # other strategies side by side, then z3 once more (for a model)
        race = sym.portfolio(s, timeout)
        if race == "unsat": return "proved", "z3 and cvc5, side by side", time.time() - t, None
        s.set("timeout", int(timeout * 1000)); r = s.check()
        if r == z3.unknown and race == "sat": return "failed", "z3 and cvc5, side by side", time.time() - t, {}
    if r == z3.unsat: return "proved", "z3 " + z3.get_version_string(), time.time() - t, None
    if r == z3.sat: return "failed", "z3 " + z3.get_version_string(), time.time() - t, model_inputs(s.model(), ex)
    # second attempt: bit-blasting tactic, then the other solver
    try:
        s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat").solver(); s2.set("timeout", int(timeout * 1000)); s2.add(*asserts)
        r = s2.check()
        if r == z3.unsat: return "proved", "z3 bit-blast", time.time() - t, None
        if r == z3.sat: return "failed", "z3 bit-blast", time.time() - t, model_inputs(s2.model(), ex)
    except z3.Z3Exception: pass
    r = external(to_smt2(asserts), timeout, "cvc5")
    if r == "unsat": return "proved", "cvc5 1.1.2", time.time() - t, None
    return ("failed" if r == "sat" else "unknown"), "cvc5", time.time() - t, {}

def run_root(job):
    path, root, opts_fn, timeout, deadline = job
    t0 = time.time()
    res = {"root": root, "obligations": [], "error": None, "functions": [], "funs": [], "contracts": [], "covers": [], "loops": {}, "solver_s": 0.0, "queries": 0}
    try:
        z3.set_param("memory_max_size", 6000)
        m = ir.Module(path)
        opts = opts_fn(root) if callable(opts_fn) else dict(opts_fn or {})
        ex = sym.Exec(m, opts)
        ex.deadline = t0 + deadline
        name = root
        st = sym.State()
        fn = m.fn(name)
        entry = opts.get("entry")
        if entry: entry(ex, fn, st)
        else:
            args = [ex.fresh_of(a["t"]) for a in fn.args]
            ex.run(name, args, st)
        if not ex.allow_throw:
            for s2, p, ti in ex.thrown: ex.oblige(s2, z3.BoolVal(False), "no exception escapes (%s)" % ti, "throw", None)
        timeout = opts.get("timeout", timeout)
        # obligations that share a path condition are tried together first
        groups = {}
        for o in ex.obls: groups.setdefault((id(o.pc), o.kind == "inv") if o.kind == "inv" else id(o), []).append(o)
        together = {}
        for g in groups.values():
            if len(g) < 2: continue
            s = z3.Solver(); s.set("timeout", int(max(timeout, 60) * 1000)); s.add(*ex.axioms); s.add(*g[0].pc); s.add(z3.Not(z3.And(*[o.cond for o in g])))
            t = time.time(); r = s.check(); dt = time.time() - t; res["solver_s"] += dt
            if r == z3.unsat:
                for o in g: together[id(o)] = dt / len(g)
        for o in ex.obls:
            if id(o) in together: res["obligations"].append((o.name, o.kind, o.loc, "proved", "z3 %s (batch)" % z3.get_version_string(), round(together[id(o)], 4), None)); continue
            if time.time() > t0 + deadline: res["obligations"].append((o.name, o.kind, o.loc, "unknown", "deadline", 0.0, None)); continue
            status, be, secs, inp = discharge(ex, o, min(timeout, max(5, t0 + deadline - time.time())))
            res["solver_s"] += secs
            res["obligations"].append((o.name, o.kind, o.loc, status, be, round(secs, 3), inp))
        # vacuity: the postcondition of each root must be reachable
        for n, pc in ex.covers:
            s = z3.Solver(); s.set("timeout", int(timeout * 1000)); s.add(*ex.axioms); s.add(*pc); r = s.check()
            res["covers"].append((n, str(r)))
        res["functions"] = sorted({"%s (%s)" % tuple(x.rsplit("@", 1)) for n in ex.run_names for x in m.fn(n).subs if "@" in x}); res["funs"] = sorted(ex.called); res["contracts"] = sorted(ex.used_contracts); res["loops"] = ex.loops_done
        res["solver_s"] += ex.solver_time; res["queries"] = ex.nq + len(ex.obls)
    except sym.Unsupported as e: res["error"] = "unsupported: %s (in %s, line %s)" % (e, ex.cur[0].fn.dem.split("(")[0][:80], ex.cur[1].get("line") or ex.cur[1].get("dbg"))
    except z3.Z3Exception as e: res["error"] = "z3: %s" % e; res["trace"] = traceback.format_exc()
    except Exception as e: res["error"] = "%s: %s" % (type(e).__name__, e); res["trace"] = traceback.format_exc()
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def _child(job, q):
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    sys.setrecursionlimit(100000)
    q.put(run_root(job))

def run_jobs(jobs, nproc=8, hard=None):
    """each root in a process of its own, so that one that runs away can be ended"""
    ctx = multiprocessing.get_context("fork"); out = {}; pending = list(enumerate(jobs)); run = {}
    while pending or run:
        while pending and len(run) < nproc:
            i, j = pending.pop(0); q = ctx.SimpleQueue(); p = ctx.Process(target=_child, args=(j, q)); p.start(); run[i] = (p, q, time.time(), j)
        time.sleep(0.02)
        for i, (p, q, t, j) in list(run.items()):
            if not q.empty(): out[i] = q.get(); p.join(5); p.kill() if p.is_alive() else None; del run[i]; continue
            if not p.is_alive():
                if not q.empty(): out[i] = q.get()
                else: out[i] = {"root": j[1], "obligations": [], "error": "verifier process died (memory?)", "functions": [], "funs": [], "contracts": [], "covers": [], "loops": {}, "solver_s": 0, "queries": 0, "wall_s": time.time() - t}
                del run[i]; continue
            if time.time() - t > j[4] * 1.3 + 20:
                p.kill(); out[i] = {"root": j[1], "obligations": [], "error": "time limit", "functions": [], "funs": [], "contracts": [], "covers": [], "loops": {}, "solver_s": 0, "queries": 0, "wall_s": time.time() - t}; del run[i]
    return [out[i] for i in range(len(jobs))]
