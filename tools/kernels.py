"""C11/C12: the generated micro-kernels, as lane-wise data flow over the compiler's IR."""
import os, re, itertools
from collections import Counter
import frontend as F, irload as I, interp as N
from frontend import Broken
from expr import *
from prover import Ctx

PASSES = "-passes=always-inline,function(sroa,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup>,adce,loop-simplify,lcssa)"


def module(src_ll, name):
    out = os.path.join(F.scratch(), name + ".opt.ll")
    t = open(src_ll).read()
    t = re.sub(r"(?m)^(attributes #.*?)\bnoinline\b", r"\1", t)
    q = out + ".in"
    open(q, "w").write(t)
    F.run([F.OPT, "-S", q, "-o", out, PASSES])
    return I.Module(out)


# ------------------------------------------------------------------ term decomposition
def expand(P, loops=()):
    """[(loops ((lv,T)...), Atom factors of monomial, coefficient)] of a sum of products"""
    out = []
    for m, c in P.t.items():
        sums = [(a, e) for a, e in m if a.kind == "sum"]
        if len(m) == 1 and sums and sums[0][1] == 1:
            lv, U, B = sums[0][0].args
            uc = U.const()
            if uc is not None and uc <= 64:
                for t in range(uc): out += expand(Subst({lv: poly(t)})(B) * c, loops)
            else:
                for l2, f, c2 in expand(B, loops + ((lv, U),)): out.append((l2, f, c * c2))
        else:
            fs = []
            for a, e in m: fs += [a] * e
            out.append((loops, tuple(fs), c))
    return out


def lanes(it, obj):
    """every store to obj, with constant trip loops expanded: [(offset const, value, ev)]"""
    res = []

    def go(evs, sub):
        for e in evs:
            if e.kind == "loop":
                T = sub(e.T)
                hit = any(x.kind in ("store", "memset", "memcpy") and touches_obj(x, obj) for x, _ in N.walk(e.body))
                if not hit: continue
                if T.const() is None: return e
                for t in range(T.const()):
                    r = go(e.body, Subst({**sub.mp, e.lv: poly(t)}))
                    if r: return r
            elif e.kind == "store" and e.ptr.obj is obj:
                p = sub(e.ptr)
                vs = e.val if isinstance(e.val, tuple) else (e.val,)
                w = e.width // len(vs)
                for k, v in enumerate(vs):
                    c = (p.off + k * w).const()
                    if c is None or sub(e.guard) is not TRUE: return e
                    res.append((c, sub(v), e))
        return None
    bad = go(it.events, Subst({}))
    return res, bad


def touches_obj(e, obj):
    p = getattr(e, "ptr", None) or getattr(e, "dst", None)
    return isinstance(p, Ptr) and p.obj is obj


def gather(terms, mr, nr, i, j, Ao, Bo):
    """terms -> pieces (start, step, T) of the depth index; or an explanation why not"""
    groups = {}
    for loops, fs, c in terms:
        if len(fs) != 2 or any(f.kind != "ld" for f in fs) or {f.args[0] for f in fs} != {Ao, Bo}:
            return None, "term %r is not a product of one element of A and one of B" % (fs,)
        if c != 1: return None, "the product %r is added %d times" % (fs, c)
        a = [f for f in fs if f.args[0] is Ao][0].args[2]
        b = [f for f in fs if f.args[0] is Bo][0].args[2]
        sa, sb = exact_div(a - 4 * i, poly(4 * mr)), exact_div(b - 4 * j, poly(4 * nr))
        if sa is None or sb is None or sa is not sb:
            return None, "pairs A[byte %r] with B[byte %r]" % (a, b)
        groups.setdefault(tuple((l.id, T) for l, T in loops), []).append((loops, sa))
    # loops of different lanes are renamed apart; group by trip count within one lane
    byT = {}
    for loops, s in [x for g in groups.values() for x in g]:
        if len(loops) > 1: return None, "nested symbolic loops"
        byT.setdefault(loops[0][1] if loops else None, []).append((loops, s))
    pieces = []
    for T, lst in byT.items():
        if T is None:
            for _, s in lst: pieces.append((s, 1, ONE))
            continue
        # same loop or several loops with the same count: sort by residue
        per = {}
        for loops, s in lst:
            lin = N.linear(s, loops[0][0])
            if lin is None or lin[1].const() is None: return None, "index %r" % s
            per.setdefault(lin[1].const(), []).append(lin[0])
        for al, starts in per.items():
            starts = list(starts)
            while starts:
                # find a start with all successors
                for b in starts:
                    run = [b + u for u in range(al)]
                    if all(x in starts for x in run) and not any((b - 1) is x for x in starts):
                        break
                else:
                    return None, "depth indices %r (step %d) are not consecutive" % (starts, al)
                for x in run: starts.remove(x)
                pieces.append((run[0], al, T))
    return pieces, None


def chain(pieces, end, ctx):
    cur, todo = ZERO, list(pieces)
    while todo:
        for p in todo:
            if ctx.eq(p[0], cur):
                cur = ctx.norm(cur + p[1] * max0(p[2]))
                todo.remove(p)
                break
        else:
            return False, "no run of depth indices starts at %r" % cur
    if not ctx.eq(cur, end): return False, "the runs of depth indices end at %r instead of %r" % (cur, end)
    return True, ""


# ------------------------------------------------------------------ instantiation of an unproved obligation
def ground(P, env):
    """value of a closed form at one valuation: Counter of products"""
    out = Counter()
    for m, c in P.t.items():
        acc = Counter({(): c})
        for a, e in m:
            g = gatom(a, env)
            for _ in range(e):
                nx = Counter()
                for m1, c1 in acc.items():
                    for m2, c2 in g.items(): nx[tuple(sorted(m1 + m2))] += c1 * c2
                acc = nx
        out.update({k: v for k, v in acc.items()})
        for k, v in acc.items(): pass
    return Counter({k: v for k, v in out.items() if v})


def gint(P, env):
    v = 0
    for m, c in P.t.items():
        for a, e in m: c *= gia(a, env) ** e
        v += c
    return v


class Opaque(Exception):
    pass


def gbool(b, env):
    while b.v is not None:
        c = b.v
        if c.op == "ge0": r = gint(c.p, env) >= 0
        elif c.op == "eq0": r = gint(c.p, env) == 0
        else: raise Opaque(repr(c))
        b = b.hi if r else b.lo
    return b is TRUE


def gia(a, env):
    if a in env: return env[a]
    k = a.kind
    if k == "div":
        n, d = gint(a.args[0], env), gint(a.args[1], env)
        if d == 0: raise Opaque("division by zero")
        q = abs(n) // abs(d)
        return q if (n < 0) == (d < 0) else -q
    if k == "cdiv":
        n, d = gint(a.args[0], env), gint(a.args[1], env)
        if d == 0: raise Opaque("division by zero")
        return -((-n) // d)
    if k == "max0": return max(0, gint(a.args[0], env))
    if k == "ite": return gint(a.args[1] if gbool(a.args[0], env) else a.args[2], env)
    if k == "sum":
        lv, U, B = a.args
        r = 0
        for t in range(gint(U, env)):
            env[lv] = t
            r += gint(B, env)
        env.pop(lv, None)
        return r
    raise Opaque(repr(a))


def gatom(a, env):
    if a.kind == "ld":
        return Counter({((a.args[0].name, gint(a.args[2], env)),): 1})
    if a.kind == "sum":
        lv, U, B = a.args
        r = Counter()
        for t in range(gint(U, env)):
            env[lv] = t
            r.update(ground(B, env))
        env.pop(lv, None)
        return r
    if a.kind == "ite":
        return ground(a.args[1] if gbool(a.args[0], env) else a.args[2], env)
    return Counter({(): gia(a, env)})


def dense(rep, fn, mr, nr, mod, label, vec):
    args = {}
    pos = [a for a in fn.args]
    if len(pos) != 6: raise Broken("%s has %d parameters" % (fn.name, len(pos)))
    it = N.Interp(mod, fn, {pos[3].name: poly(mr), pos[4].name: poly(nr)}).run()
    Ao, Bo, Co = (it.env[pos[q]].obj for q in range(3))
    k = it.env[pos[5]]
    ks = next(iter(k.atoms()))
    ctx = Ctx([k])
    where = "%s (generated from python/kernel_gen.py)" % label
    rep.count("kernels")
    if it.issues: rep.undec("analysis", "%s: %s" % (label, it.issues[:2]))
    st, bad = lanes(it, Co)
    if bad is not None:
        rep.undec("C stores", "%s: store with a variable position %r" % (label, bad))
        return
    final = {}
    for off, v, e in st: final[off] = (v, e)
    rep.count("C lanes", len(final))
    want = {4 * (i * nr + j) for i in range(mr) for j in range(nr)}
    if set(final) - want:
        o = min(set(final) - want)
        rep.violation("C tile bounds", final[o][1].loc(), "%s stores to C + %d bytes, outside its %dx%d tile" % (label, o, mr, nr))
    if want - set(final):
        o = min(want - set(final))
        rep.violation("C tile complete", where, "%s never stores C[%d][%d]" % (label, o // 4 // nr, o // 4 % nr))
    # a store to C before a later load of C of the same lane would break the 'old value' reading
    seen = False
    for e, _ in N.walk(it.events):
        p = getattr(e, "ptr", None)
        if isinstance(p, Ptr) and p.obj is Co:
            if e.kind == "store": seen = True
            elif e.kind == "load" and seen:
                rep.undec("C order", "%s: C is read after it was written" % label)
                break
    for e, _ in N.walk(it.events):
        if e.kind in ("store", "memset") and e.ptr.obj in (Ao, Bo):
            rep.violation("operands read-only", e.loc(), "%s writes operand %s" % (label, e.ptr.obj))
        elif e.kind == "store" and e.ptr.obj is not Co and e.ptr.obj.kind != "stack":
            rep.violation("operands read-only", e.loc(), "%s writes %s" % (label, e.ptr.obj))
    for off in sorted(want & set(final)):
        i, j = off // 4 // nr, off // 4 % nr
        v, e = final[off]
        old = poly(Atom("ld", Co, (), poly(off)))
        d = v - old
        pieces, why = gather(expand(d), mr, nr, i, j, Ao, Bo)
        good = False
        if pieces is not None: good, why = chain(pieces, k, ctx)
        if good:
            rep.ok("lane sum", "%s C[%d][%d] += sum over the runs %s of the depth" % (label, i, j, [(p[0], "step %d" % p[1], "x %r" % p[2]) for p in pieces]))
            continue
        wit = None
        try:
            for kk in list(range(0, 14)) + [17, 23, 31, 32, 33, 64, 65]:
                got = ground(v, {ks: kk})
                exp = Counter({((Co.name, off),): 1})
                for t in range(kk): exp[tuple(sorted([(Ao.name, 4 * (t * mr + i)), (Bo.name, 4 * (t * nr + j))]))] += 1
                if got != exp:
                    miss, extra = exp - got, got - exp
                    wit = "k=%d: missing %s, extra %s" % (kk, fmt(miss), fmt(extra))
                    break
        except Opaque as x:
            rep.undec("lane sum", "%s C[%d][%d]: %s (%s)" % (label, i, j, why, x))
            continue
        if wit: rep.violation("lane sum", where, "%s C[%d][%d] is not the sum over t<k of A[t*%d+%d]*B[t*%d+%d]: %s; %s" % (label, i, j, mr, i, nr, j, why, wit))
        else: rep.undec("lane sum", "%s C[%d][%d]: %s" % (label, i, j, why))
    # extents of the loads
    bounds(rep, it, label, {Ao: 4 * mr * k, Bo: 4 * nr * k, Co: poly(4 * mr * nr)}, ctx, ks, where)
    return it


def fmt(c):
    return ", ".join("%s%s" % ("" if v == 1 else "%dx " % v, "*".join("%s[%d]" % (o, b // 4) for o, b in m)) for m, v in list(c.items())[:3]) or "nothing"


def bounds(rep, it, label, lim, ctx, ks, where):
    for e, stack in N.walk(it.events):
        if e.kind not in ("load", "store") or e.ptr.obj not in lim: continue
        L = lim[e.ptr.obj]
        fs = []
        for l in stack: fs += [poly(l.lv), l.T - 1 - l.lv]
        c = ctx.add([ctx.norm(f) for f in fs]).assume(e.guard)
        lo, hi = e.ptr.off, L - e.ptr.off - e.width
        rep.count("accesses")
        if c.ge(lo) and c.ge(hi):
            rep.ok("access in bounds", "%s %s of %d bytes at %r" % (label, e.kind, e.width, e.ptr))
            continue
        w = None
        try:
            for kk in list(range(0, 14)) + [31, 32, 33]:
                w = inst_bounds(e, stack, L, {ks: kk})
                if w is not None:
                    w = "k=%d: byte %d of %d" % (kk, w, gint(L, {ks: kk}))
                    break
        except Opaque as x:
            pass
        if w: rep.violation("access in bounds", e.loc() + " " + label, "%s reads or writes outside %s: %s" % (label, e.ptr.obj, w))
        else: rep.undec("access in bounds", "%s %r" % (label, e))


def inst_bounds(e, stack, L, env):
    env = dict(env)

    def go(k):
        if k == len(stack):
            if gbool(e.guard, env):
                o = gint(e.ptr.off, env)
                if o < 0 or o + e.width > gint(L, env): return o
            return None
        if not gbool(stack[k].guard, env): return None
        T = gint(stack[k].T, env)
        for t in range(T):
            env[stack[k].lv] = t
            r = go(k + 1)
            if r is not None: return r
        env.pop(stack[k].lv, None)
        return None
    return go(0)


def c11(rep):
    rep.technique = ("Lane-wise data flow over the LLVM IR of every generated Haswell kernel: each vector lane of C is derived as a closed form "
                     "(old value + finite sums of products of one element of A and one of B) for symbolic depth k; the rule matches it against the outer-product "
                     "contract, the runs of depth indices must chain from 0 to k, and every load/store must lie in the operand extents.")
    rep.assume = ["integer overflow excluded (C24)", "floating-point addition treated as exact addition (rounding is C22)",
                  "kernels are called with m=mr, n=nr (checked under C13)"]
    lls = F.compile_all()
    src = [s for s in lls if s.endswith("kernels/haswell/dense.cpp")]
    if not src: raise Broken("no generated dense kernels")
    mod = module(lls[src[0]], "dense")
    for n, f in sorted(mod.funcs.items()):
        d = F.demangle_name(n)
        m = re.fullmatch(r"cake_sgemm_haswell_(\d+)x(\d+)", d)
        if f.decl or not m: continue
        dense(rep, f, int(m.group(1)), int(m.group(2)), mod, d, 8)
    rep.need("kernels", 4)
    rep.need("C lanes", 672)
