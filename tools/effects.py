"""C16 (hidden state, caller's context) and the write-effect part of C07."""
import typestate as T, interp as N, units as U, frontend as F
from dispatch import Types
from frontend import Broken
from interp import loc

STATEFUL = {"rand", "srand", "random", "srandom", "drand48", "srand48", "lrand48", "strtok", "strerror", "setenv", "putenv", "unsetenv", "chdir",
            "setlocale", "localtime", "gmtime", "asctime", "ctime", "getenv", "fesetround", "fesetenv", "feenableexcept", "signal", "sigaction", "atexit",
            "sched_setaffinity", "pthread_setaffinity_np", "setrlimit", "nice", "setpriority", "omp_set_dynamic", "omp_set_nested", "omp_set_schedule",
            "omp_set_max_active_levels", "omp_get_max_threads", "omp_get_num_procs", "omp_get_dynamic", "llvm.x86.sse.ldmxcsr", "llvm.set.rounding", "llvm.set.fpmode", "llvm.set.fpenv",
            "umask", "alarm", "setitimer", "mallopt", "shm_open", "sched_getcpu", "getpid", "gettid", "pthread_self", "get_nprocs", "fork"}
CLOCKS = {"clock_gettime": 1, "gettimeofday": 0, "time": None, "clock": None, "omp_get_wtime": None, "rdtsc": None, "llvm.x86.rdtsc": None, "llvm.readcyclecounter": None}
SELFTEST = ("src/util.cpp", "src/autotune_sa.cpp")
OKSINK = ("printf", "fprintf", "llvm.lifetime", "llvm.dbg")


def objroot(v, seen=None):
    """objects an address may be based on"""
    seen = set() if seen is None else seen
    if v in seen: return set()
    seen.add(v)
    k = getattr(v, "kind", "")
    if k == "instr":
        if v.op in ("gep", "bitcast", "addrspacecast", "freeze"): return objroot(v.ops[0], seen)
        if v.op == "phi": return set().union(*[objroot(x, seen) for x, _ in v.inc]) if v.inc else set()
        if v.op == "select": return objroot(v.ops[1], seen) | objroot(v.ops[2], seen)
        if v.op == "call" and (T.callname(v) or "").startswith("llvm.threadlocal.address"): return objroot(v.args[0], seen)
    if k == "cexpr" and v.ops: return objroot(v.ops[0], seen)
    return {v}


def targets(i):
    """addresses an instruction writes through"""
    if i.op == "store": return [i.ops[1]]
    if i.op in ("atomicrmw", "cmpxchg"): return [i.ops[0]]
    if i.op in ("call", "invoke"):
        n = T.callname(i) or ""
        if n.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")) or n in ("memset", "memcpy", "memmove", "strcpy", "strncpy", "sprintf", "snprintf", "fgets", "clock_gettime", "strcat"):
            return [i.args[1] if n == "clock_gettime" else i.args[0]]
        if n.startswith("llvm.masked.store"): return [i.args[1]]
        if n.startswith(("llvm.x86.avx.maskstore", "llvm.x86.avx2.maskstore")): return [i.args[0]]
    return []


def writes(g, k, seen=None):
    """may g write through its k-th parameter?"""
    seen = set() if seen is None else seen
    if (g, k) in seen: return False
    seen.add((g, k))
    a = g.args[k]
    for b, i in U.instrs(g):
        for p in targets(i):
            if a in objroot(p): return True
        if i.op == "call" and hasattr(i.callee, "blocks") and i.callee.blocks:
            for j, x in enumerate(i.args[:len(i.callee.args)]):
                if x.kind != "metadata" and x.ty.k == "ptr" and a in objroot(x) and writes(i.callee, j, seen): return True
        if i.op == "call" and "asm" in str(type(i.callee)).lower(): return True
    return False


class Watch(T.Analysis):
    """a pointer of the caller's that must not be written through"""
    kern = {}

    def step(s, st, i):
        for p in targets(i):
            if s.holds(st, p) == "yes": s.flag("write", i, "writes through %s" % s.site.what)
        if i.op == "call":
            n = T.callname(i)
            if n is None and len(i.args) == 6:                      # a micro-kernel from the table
                if s.holds(st, i.args[2]) == "yes" and i.args[2].ty.k == "ptr": s.flag("write", i, "hands %s to the micro-kernel as its output" % s.site.what)
            elif n is not None and n.startswith("bli_spackm"):
                if s.holds(st, i.args[6]) == "yes": s.flag("write", i, "hands %s to %s as its output" % (s.site.what, n))
            elif n in s.kern:
                for j, x in enumerate(i.args[:len(s.kern[n].args)]):
                    if x.kind != "metadata" and x.ty.k == "ptr" and s.holds(st, x) == "yes":
                        if writes(s.kern[n], j): s.flag("write", i, "hands %s to %s, which writes it" % (s.site.what, n))
            elif (n in ("free", "realloc") or n in T.DELETE) and s.holds(st, i.args[0]) == "yes": s.flag("write", i, "releases %s" % s.site.what)
        return super().step(st, i)


def kernels():
    """functions of the hand-written kernels"""
    r = {}
    for u in U.load(skip=()):
        if "kernels/" not in u.src: continue
        for f in u.mod.funcs.values():
            if f.blocks: r[U.name(f)] = f
    return r


def watch(f, a, what):
    lp = T.Loops(f)
    corr = T.correlated(f, lp)
    s = T.Site("arg", a, what)
    corr = T.relevant(f, s, corr, lp) if len(corr) > 6 else corr
    return Watch(f, s, lp, corr).run()


def c16(rep):
    rep.technique = "effect analysis: stores to and escapes of every mutable global, path-sensitive writes through context parameters, calls to stateful or ambient library functions and clock-value taint"
    Watch.kern = kernels()
    for u in U.load(skip=()): globalstate(u, rep)
    rep.need("functions examined for state", 20)
    ctxwrites(rep)


def globalstate(u, rep):
    used = {}
    test = any(x in u.src for x in SELFTEST)
    for f in u.mod.funcs.values():
        if not f.blocks: continue
        rep.count("functions examined for state")
        for b, i in U.instrs(f):
            ops = list(i.ops) + (list(i.args) if i.op == "call" else [])
            gs = set()
            for o in ops:
                if getattr(o, "kind", "") in ("global", "cexpr", "instr"): gs |= {x for x in objroot(o) if getattr(x, "kind", "") == "global"}
            for g in gs:
                if g.v["const"] or g.name.startswith((".gomp_critical", "llvm.", "stdout", "stderr", "stdin")): continue
                used.setdefault(g, []).append((f, i))
            if i.op == "call":
                n = T.callname(i)
                if n in STATEFUL:
                    if test: rep.count("self-test uses of stateful functions")
                    else: rep.violation("hidden state", loc(i).split(" ")[0], "%s calls %s, whose effect or result outlives or precedes the call" % (U.name(f), n))
                if n == "omp_set_num_threads":
                    a = i.args[0]
                    if isparam(f, a): rep.ok("thread count is the caller's", U.name(f))
                    else: rep.undec("thread count", "%s at %s" % (U.name(f), loc(i).split(" ")[0]))
        if not test: clocks(f, rep)
    for g in u.mod.globals.values():
        if g.v["const"] or g.name.startswith((".gomp_critical", "llvm.")): continue
        if g.v["decl"]:
            if g in used and not g.name.startswith(("stdout", "stderr", "stdin")): rep.undec("mutable global", "%s is defined elsewhere" % g.name)
            continue
        rep.count("mutable globals")
        bad = False
        for f, i in used.get(g, ()):
            if any(g in objroot(p) for p in targets(i)):
                bad = True
                rep.violation("hidden state", loc(i).split(" ")[0], "%s writes the %s %s, which outlives the call" % (U.name(f), "thread-local" if g.v["tls"] else "global", F.demangle_name(g.name) if g.name.startswith("_Z") else g.name))
            elif i.op == "store" and g in objroot(i.ops[0]): rep.undec("mutable global", "the address of %s is stored at %s" % (g.name, loc(i).split(" ")[0]))
            elif i.op == "call":
                n = T.callname(i) or ""
                if n.startswith(("llvm.dbg", "llvm.lifetime", "printf", "fprintf", "llvm.memcpy", "llvm.threadlocal")): continue
                if hasattr(i.callee, "blocks") and i.callee.blocks:
                    for j, x in enumerate(i.args[:len(i.callee.args)]):
                        if g in objroot(x) and writes(i.callee, j):
                            bad = True
                            rep.violation("hidden state", loc(i).split(" ")[0], "%s passes the global %s to %s, which writes it" % (U.name(f), g.name, n))
                elif any(g in objroot(x) for x in i.args if x.kind != "metadata" and x.ty.k == "ptr") and n:
                    bad = True
                    rep.violation("hidden state", loc(i).split(" ")[0], "%s passes the writable global %s to %s" % (U.name(f), g.name, n))
        if not bad: rep.ok("global is never written", g.name)


def isparam(f, a):
    if a in f.args: return True
    if getattr(a, "op", "") == "load":
        r = objroot(a.ops[0])
        return any(i.op == "store" and i.ops[0] in f.args and objroot(i.ops[1]) == r for b, i in U.instrs(f))
    return False


def clocks(f, rep):
    """values read from a clock only reach reports and returned times"""
    seeds, cells = [], set()
    for b, i in U.instrs(f):
        if i.op != "call": continue
        n = T.callname(i)
        if n in CLOCKS:
            rep.count("clock reads")
            k = CLOCKS[n]
            if k is None: seeds.append(i)
            else: cells |= objroot(i.args[k])
    if not seeds and not cells: return
    taint, ch = set(seeds), True
    while ch:
        ch = False
        for b, i in U.instrs(f):
            if i in taint: continue
            t = any(o in taint for o in i.ops)
            if i.op == "load" and objroot(i.ops[0]) & cells: t = True
            if i.op == "phi": t = any(v in taint for v, _ in i.inc)
            if i.op == "store" and i.ops[0] in taint:
                r = objroot(i.ops[1])
                if not r <= cells:
                    if all(getattr(x, "op", "") == "alloca" for x in r): cells |= r; ch = True
                    else: rep.violation("ambient value", loc(i).split(" ")[0], "%s stores a value derived from a clock" % U.name(f))
                continue
            if i.op == "call":
                n = T.callname(i) or ""
                if any(a in taint for a in i.args) and not n.startswith(OKSINK + ("llvm.",)):
                    rep.violation("ambient value", loc(i).split(" ")[0], "%s passes a value derived from a clock to %s" % (U.name(f), n))
                t = any(a in taint for a in i.args)
            if t and i.op in ("br", "switch"): rep.violation("ambient value", loc(i).split(" ")[0], "%s branches on a value derived from a clock" % U.name(f))
            if t and i.ty.k != "void":
                taint.add(i)
                ch = True
    rep.ok("clock values only reported", U.name(f))


def ctxwrites(rep):
    mod, fs = T.program()
    ty = Types(T._prog["path"])
    for f in fs:
        for a in ty.params(f, lambda t: t == "cake_cntx_t*"):
            if U.name(f) == "update_mr_nr":
                rep.ok("explicit tile update", U.name(f))
                continue
            rep.count("context parameters")
            r = watch(f, a, "the caller's context")
            rep.count("path states", r.visited)
            bad = [x for x in r.bad if x[0] == "write"]
            for _, i, t in bad: rep.violation("context written", loc(i).split(" ")[0], "%s %s" % (U.name(f), t))
            if not bad: rep.ok("caller's context is only read", U.name(f))
    rep.need("context parameters", 8)


# ------------------------------------------------------------------ C07
def inputs(f, floats):
    """input operands of a library function, by the library's calling conventions"""
    n = U.name(f)
    if n.startswith("unpack"): return floats[1:2]
    if n.startswith(("pack_", "transpose")): return floats[1:2] if n == "transpose" else floats[:1]
    if n.startswith(("schedule", "cake_sgemm", "cake_gemm")): return floats[:3] if "check" in n else floats[:2]
    if n.startswith(("mat_equals", "print", "add_checker")): return floats
    return []


def c07(rep):
    Watch.kern = kernels()
    mod, fs = T.program()
    ty = Types(T._prog["path"])
    for f in fs:
        for a in inputs(f, ty.params(f, lambda t: t == "float*")):
            rep.count("input operands")
            r = watch(f, a, "the input operand %s" % a.name)
            rep.count("path states", r.visited)
            bad = [x for x in r.bad if x[0] == "write"]
            for _, i, t in bad: rep.violation("input written", loc(i).split(" ")[0], "%s %s" % (U.name(f), t))
            if not bad: rep.ok("input operand is only read", "%s(%s)" % (U.name(f), a.name))
    rep.need("input operands", 12)
    import drv
    for n, g in sorted(Watch.kern.items()):
        if not drv.D.KERNEL(n): continue
        rep.count("micro-kernels")
        w = [a.name for k, a in enumerate(g.args) if a.ty.k == "ptr" and k != 2 and writes(g, k)]
        if w: rep.violation("input written", n, "%s writes through its operand %s" % (n, ", ".join(w)))
        else: rep.ok("micro-kernel only writes its third operand", n)
    rep.need("micro-kernels", 4)
    drv.decide(rep, "C07")
    rep.technique = "path-sensitive alias and write-effect analysis of every input operand in every function; write events of the driver summaries"
