"""C14: aligned vector accesses only ever see aligned addresses (congruence domain over the closed forms)."""
import re
from math import gcd
import typestate as T, interp as N, units as U, frontend as F, irload as I, drivers as D, drv, kernels, tiles, inst
from frontend import Broken
from interp import loc
from expr import *


# ------------------------------------------------------------------ divisibility domain
def content(P, facts, lets=None, memo=None):
    """the largest integer known to divide every value of P (0: P is zero)"""
    memo = {} if memo is None else memo
    if not isinstance(P, Poly): return 1
    if P.id in memo: return memo[P.id]
    memo[P.id] = 1
    g = 0
    for m, c in P.t.items():
        if not isinstance(c, int) and getattr(c, "denominator", 1) != 1:
            g = 1
            break
        k = abs(int(c))
        for a, e in m: k *= atom(a, facts, lets, memo) ** e
        g = gcd(g, k)
        if g == 1: break
    memo[P.id] = g
    return g


def atom(a, facts, lets, memo):
    if a in facts: return facts[a]
    if a.kind == "ite": return gcd(content(a.args[1], facts, lets, memo), content(a.args[2], facts, lets, memo))
    if a.kind == "max0": return content(a.args[0], facts, lets, memo)
    if a.kind == "sum": return content(a.args[2], facts, lets, memo)
    if lets is not None and a in lets: return content(lets[a], facts, lets, memo)
    return 1


def letmap(it): return {a if not isinstance(a, Poly) else next(iter(a.atoms())): v for a, v in it.letdefs.items()}


# ------------------------------------------------------------------ what the kernels demand
def demands(rep, mod, pat, label):
    """{operand number: required alignment} and {tile} over the generated kernels"""
    need, tl = {}, {}
    for n, f in sorted(mod.funcs.items()):
        d = F.demangle_name(n)
        m = re.fullmatch(pat, d)
        if not m or not f.blocks: continue
        mr, nr = int(m.group(1)), int(m.group(2))
        pos = list(f.args)
        it = N.Interp(mod, f, {pos[3].name: poly(mr), pos[4].name: poly(nr)}).run()
        objs = {it.env[pos[q]].obj: q for q in range(3)}
        tl[(mr, nr)] = d
        rep.count("kernels")
        for e, stack in N.walk(it.events):
            if e.kind not in ("load", "store") or e.width < 16: continue
            al = getattr(e.ins, "align", 0) or 1
            q = objs.get(e.ptr.obj)
            if q is None:
                if al > 4 and e.ptr.obj.kind not in ("stack",): rep.undec("kernel access", "%s: aligned access to %s" % (d, e.ptr.obj))
                continue
            rep.count("kernel vector accesses")
            if al <= 4:
                rep.ok("unaligned access", "%s %s" % (d, "ABC"[q]))
                continue
            need.setdefault(q, {}).setdefault((mr, nr), [0, None])
            if al > need[q][(mr, nr)][0]: need[q][(mr, nr)] = [al, e]
            if content(e.ptr.off, {}) % al == 0: rep.ok("position within the panel", "%s: %r is a multiple of %d" % (d, e.ptr, al))
            else:
                w = bad_iter(e, stack, al)
                if w: rep.violation("position within the panel", e.loc() + " " + d, "%s accesses operand %s with a %d-byte aligned instruction at byte %s of the panel" % (d, "ABC"[q], al, w))
                else: rep.undec("position within the panel", "%s: %r" % (d, e.ptr))
    if not tl: raise Broken("no kernel matches %s" % pat)
    return need, tl


def bad_iter(e, stack, al):
    """a loop position with a misaligned address"""
    import itertools
    for v in itertools.product(range(3), repeat=min(len(stack), 3)):
        env = dict(zip([l.lv for l in stack], v))
        try: o = kernels.gint(e.ptr.off, env)
        except Exception: continue
        if o % al: return o
    return None


# ------------------------------------------------------------------ what the drivers give
def given(rep, P, jobs, need, tl):
    nk = 0
    for j in jobs:
        lets = letmap(j.scn.it)
        for e, stack in N.walk(j.scn.ev):
            if e.kind != "kernel": continue
            for q, per in need.items():
                nk += 1
                for obj, off, g in ptrs(e.args[q]):
                    al = max(a for a, _ in per.values())
                    where = e.loc()
                    base = basealign(obj)
                    if base is None: rep.ok("caller's buffer", "%s: %s is assumed aligned like the library's own" % (j.name, obj))
                    elif base == "?": rep.undec("buffer aligned", "%s %s: %s" % (j.name, where, obj))
                    elif base % al:
                        rep.violation("buffer aligned", where, "%s: operand %s of the kernel is a block from %s, aligned to %d bytes only; %s reads it with %d-byte aligned instructions" % (
                            j.name, "ABC"[q], obj, base, per[max(per)][1].loc().split(" ")[0], al))
                        continue
                    else: rep.ok("buffer aligned", "%s: %s to %d bytes" % (j.name, obj, base))
                    bad = []
                    for (mr, nr), (a, _) in sorted(per.items()):
                        facts = {next(iter(sym("cake_cntx.mr").atoms())): mr, next(iter(sym("cake_cntx.nr").atoms())): nr}
                        if content(off, facts, lets) % a: bad.append((mr, nr))
                    if not bad:
                        rep.ok("panel offset aligned", "%s %s: the offset into %s is a multiple of the panel width" % (j.name, where.split(" ")[0], obj))
                        continue
                    j.align_todo.append((e, q, al, bad, off))
    return nk


def ptrs(p):
    if isinstance(p, Ptr): return [(p.obj, p.off, None)]
    if isinstance(p, PIte): return ptrs(p.a) + ptrs(p.b)
    return []


def basealign(o):
    """alignment of the start of an object; None: the caller's"""
    if o.kind == "arg": return None
    if o.kind == "heap":
        if o.how in ("posix_memalign", "aligned_alloc"):
            c = o.align.const() if isinstance(o.align, Poly) else None
            if c is None: return "?"
            return c & -c if c else 1
        return 16
    return "?"


class AJob:
    """one scenario at real tiles: looks for a panel address that is not aligned"""

    def __init__(s, job, need):
        s.job, s.need, s.name, s.scn = job, need, job.name, job.scn

    def valuations(s, n):
        R = drv.rng("align", s.job.name)
        tl = sorted({t for per in s.need.values() for t in per})
        for i in range(n):
            t = R.choice(tl)
            p = R.choice((1, 2, 3, 4))
            pm = R.choice([d for d in range(1, p + 1) if p % d == 0])
            yield {"p": p, "pm": pm, "pn": p // pm, "mu": R.choice((1, 1, 2)), "nu": R.choice((1, 1, 2)), "kc": R.choice((1, 2, 3)), "K": R.randint(1, 7),
                   "M": R.randint(1, 3 * t[0]), "N": R.randint(1, 3 * t[1]), "cake_cntx.mr": t[0], "cake_cntx.nr": t[1]}

    def run(s, E):
        E = drv.Env({**drv.MACHINE, **E})
        h = s.job.host(E)
        hits = []
        need, t = s.need, (E["cake_cntx.mr"], E["cake_cntx.nr"])
        old = h.kernel

        def kernel(ev, A, B, C, m, n, k):
            for q, p in enumerate((A, B, C)):
                a = need.get(q, {}).get(t)
                if a and p[1] % a[0] and k > 0: hits.append(("panel offset aligned", ev.loc(), "operand %s of the %dx%d kernel is %d bytes into its buffer, not a multiple of %d" % ("ABC"[q], t[0], t[1], p[1], a[0])))
            return old(ev, A, B, C, m, n, k)
        h.kernel = kernel
        try: s.job.gen.run(E, h)
        except Exception: pass
        return hits


# ------------------------------------------------------------------ every other aligned access of the library
def others(rep, us, pat):
    callers = {}
    for u in us:
        for f in u.mod.funcs.values():
            for b, i in U.instrs(f) if f.blocks else ():
                if i.op == "call" and U.callee(i) and (i.callee is not f): callers.setdefault(U.callee(i), []).append((f, i))
    kern = {n for n, l in callers.items() if all(re.fullmatch(pat, U.name(g)) for g, _ in l)}      # used by the kernels only
    callers = {n: [(g, i) for g, i in l if not re.fullmatch(pat, U.name(g))] for n, l in callers.items()}
    done = set()
    for u in us:
        for f in u.mod.funcs.values():
            if not f.blocks or re.fullmatch(pat, U.name(f)) or U.name(f) in kern or f.name in done: continue
            if U.name(f).startswith("_mm"): done.add(f.name)
            for b, i in U.instrs(f):
                p = None
                if i.op == "load": p, ty = i.ops[0], i.ty
                elif i.op == "store": p, ty = i.ops[1], i.ops[0].ty
                if p is None or ty.k != "vector" or ty.size < 16: continue
                rep.count("other vector accesses")
                al = i.align or 1
                if al <= 4:
                    rep.ok("unaligned access", "%s %s" % (u.src, U.name(f)))
                    continue
                v = verdict(p, f, al, callers, 0)
                if v is True: rep.ok("aligned access", "%s %s" % (loc(i).split(" ")[0], U.name(f)))
                elif v is None: rep.undec("aligned access", "%s %s" % (loc(i), U.name(f)))
                else: rep.violation("aligned access", place(f, i, callers), "%s: a %d-byte aligned vector instruction is given %s, whose alignment nothing guarantees" % (U.name(f), al, v))


def place(f, i, callers):
    if not U.name(f).startswith("_mm"): return loc(i).split(" ")[0]
    return " / ".join(sorted({loc(c).split(" ")[0] for g, c in callers.get(U.name(f), [])})[:6]) or U.name(f)


def verdict(p, f, al, callers, depth):
    """True: aligned; text: an address without any such guarantee; None: not known"""
    root, const = U.base(p)
    k = getattr(root, "kind", "")
    if k == "instr" and root.op == "alloca":
        return True if root.align >= al and aligned_gep(p, al) else None
    if k == "global":
        return True if aligned_gep(p, al) else None
    if k == "arg":
        if any(i.op == "ptrtoint" and U.base(i.ops[0])[0] is root for b, i in U.instrs(f)): return None
        if not aligned_gep(p, al): return "element %s of %s" % ("at a run-time position", root.name)
        cs = callers.get(U.name(f), [])
        if not cs or depth > 4: return "the caller's %s" % root.name
        n = list(f.args).index(root)
        rs = [verdict(i.args[n], g, al, callers, depth + 1) for g, i in cs if n < len(i.args)]
        bad = [r for r in rs if isinstance(r, str)]
        return bad[0] if bad else None if None in rs else True
    if k == "instr" and root.op == "load": return "a pointer loaded from memory"
    return None


def aligned_gep(p, al):
    """every index of the address is a constant and the offset a multiple of al"""
    off = 0
    while getattr(p, "kind", "") == "instr" and p.op == "gep":
        if any(getattr(x, "kind", "") != "const" for x in p.ops[1:]): return False
        ty = p.srcty
        for n, x in enumerate(p.ops[1:]):
            if n == 0: off += x.v * ty.size
            elif ty.k == "struct":
                off += ty.offs[x.v]
                ty = ty.fields[x.v]
            else:
                ty = ty.elem
                off += x.v * ty.size
        p = p.ops[0]
    return off % al == 0


def c14(rep):
    rep.technique = "alignment demanded by every vector access of the IR against a congruence (divisibility) analysis of every address the drivers compute"
    rep.assume = ["buffers the caller packs itself are aligned like the library's own", "malloc and calloc align to 16 bytes", "the register tile is one a kernel is generated for (C13)"]
    lls = F.compile_all()
    src = [s for s in lls if s.endswith("kernels/haswell/dense.cpp")]
    if not src: raise Broken("no generated dense kernels")
    pat = r"cake_sgemm_haswell_(\d+)x(\d+)"
    need, tl = demands(rep, kernels.module(lls[src[0]], "dense"), pat, "haswell")
    rep.need("kernels", 4)
    rep.need("kernel vector accesses", 20)
    for q, per in need.items():
        for t, (a, e) in per.items(): rep.ok("demand", "%dx%d reads %s with %d-byte aligned instructions" % (t + ("ABC"[q], a)))
    P = D.Program.get()
    jobs = [j for j in drv.jobset(P, ("gemm", "beta", "online", "packed")) if not j.scn.raw]
    for j in jobs: j.align_todo = []
    nk = given(rep, P, jobs, need, tl)
    rep.count("panel addresses analysed", nk)
    if need: rep.need("panel addresses analysed", 8)
    todo = [j for j in jobs if j.align_todo]
    if todo:
        cnt, res = drv.sweep([AJob(j, need) for j in todo], 60)
        hit, seen = set(), set()
        for ji, rule, where, text, E in res:
            if todo[ji].taint: continue
            hit.add(todo[ji].name)
            if where in seen: continue
            seen.add(where)
            rep.violation(rule, where, "%s: %s   [%s]" % (todo[ji].name, text, ", ".join("%s=%s" % x for x in E.items())))
        for j in todo:
            if j.name not in hit:
                for e, q, al, bad, off in j.align_todo: rep.undec("panel offset aligned", "%s %s operand %s" % (j.name, e.loc(), "ABC"[q]))
    others(rep, U.load(skip=()), pat)
    rep.need("other vector accesses", 1)
