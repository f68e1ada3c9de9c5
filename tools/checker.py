"""C26: the library's own checkers never pass a wrong result.

Three questions about each checker, after inlining:
 verdict    the function is interpreted over an abstract machine in which loop counters are forgotten beyond two and
            every comparison of an element of C with its reference is one of seven situations (equal, within the
            tolerance, too large, too small, NaN, +inf, -inf); the returned verdict must be 0 exactly when no
            situation was a mismatch - on every path of the flow graph
 coverage   the closed-form read relation of C covers all M*N elements, each against the reference of its own index
 reference  the closed-form content of the reference at the comparison is sum A[m][k]*B[k][n]
"""
import math
import frontend as F, drivers as D, drv, inst, interp as N, units as U
from frontend import Broken
from interp import loc
from expr import *

EPS = 1e-3
CASES = (("equal", 0.0, False), ("within the tolerance", 0.8e-3, False), ("too small by 2e-3", 2e-3, True), ("too large by 2e-3", -2e-3, True),
         ("NaN", math.nan, True), ("+inf", -math.inf, True), ("-inf", math.inf, True))
REF = 0.5


class TopT:
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n


TOP, BIG, SOFT, PTR = TopT("any"), TopT(">2"), TopT("?"), TopT("ptr")     # SOFT: depends on something the machine does not model


def roots(v, seen=None):
    """objects an address may point into"""
    seen = set() if seen is None else seen
    if v in seen: return set()
    seen.add(v)
    if getattr(v, "kind", "") == "instr":
        if v.op in ("gep", "bitcast", "freeze"): return roots(v.ops[0], seen)
        if v.op == "phi": return set().union(*[roots(x, seen) for x in v.ops])
        if v.op == "select": return roots(v.ops[1], seen) | roots(v.ops[2], seen)
    return {v}


class Machine:
    def __init__(s, fn, cname):
        s.fn = fn
        s.C = next((a for a in fn.args if a.name == cname), None)
        s.ref = {i for b, i in U.instrs(fn) if i.op == "call" and U.callee(i) in ("malloc", "calloc", "posix_memalign", "aligned_alloc") or
                 i.op == "call" and getattr(getattr(i, "callee", None), "name", "") in N.NEW}
        if s.C is None or not s.ref: raise Broken("%s: no parameter %s or no reference matrix" % (fn.name, cname))
        s.lc, s.lr = {}, {}
        for b, i in U.instrs(fn):
            if i.op != "load": continue
            r = roots(i.ops[0])
            if r == {s.C}: s.lc[i] = b
            elif r and r <= s.ref: s.lr[i] = b
        # the loads that feed a floating-point comparison
        s.cmp = []
        for b, i in U.instrs(fn):
            if i.op == "fcmp" or (i.op == "call" and ("is.fpclass" in getattr(getattr(i, "callee", None), "name", "") or U.callee(i) in ("isnan", "isinf"))):
                t = tree(i)
                c, r = [x for x in t if x in s.lc], [x for x in t if x in s.lr]
                if c or r: s.cmp.append((i, c, r))
        s.live = {x for _, c, r in s.cmp for x in c}
        s.liver = {x for _, c, r in s.cmp for x in r}
        s.paths = s.steps = 0
        s.bad, s.und = {}, {}
        s.users = {}
        for b, i in U.instrs(fn):
            for o in i.ops: s.users.setdefault(o, []).append(i)

    def needed(s):
        """instructions whose value can reach a branch, a return or a live comparison"""
        st = [i for b, i in U.instrs(s.fn) if i.op in ("br", "switch", "ret")]
        seen = set(st)
        while st:
            i = st.pop()
            for o in i.ops:
                if getattr(o, "kind", "") == "instr" and o not in seen:
                    seen.add(o)
                    st.append(o)
        return seen

    def get(s, env, v):
        k = getattr(v, "kind", "")
        if k == "instr": return env.get(v, SOFT)
        if k in ("const", "fconst"): return v.v
        if k == "null": return 0
        if k == "arg": return PTR if v.ty.k == "ptr" else TOP
        return SOFT

    def run(s):
        s.need = s.needed()
        b0 = s.fn.blocks[0]
        start = (b0, None, frozenset(), False, None)
        seen, st = {start}, [start]
        while st:
            if len(seen) > 60000:
                s.und["size"] = "more than 60000 abstract states"
                return s
            for q in s.block(*st.pop()):
                if q not in seen:
                    seen.add(q)
                    st.append(q)
        s.steps = len(seen)
        return s

    def block(s, b, pred, env, q, soft):
        envs = [(dict(env), q, soft)]
        phis = {}
        for i in b.ins:
            if i.op == "phi":
                phis[i] = s.get(envs[0][0], next(v for v, p in i.inc if p is pred))
        for i, v in phis.items():
            if i in s.need: envs[0][0][i] = v
        for i in b.ins:
            if i.op == "phi": continue
            if i.op in ("br", "switch", "ret", "unreachable"): break
            if i in s.live:
                nxt = []
                for e, q, soft in envs:
                    if e.get("case") is None or i in e.get("used", ()):
                        for k, (nm, d, wrong) in enumerate(CASES):
                            e2 = dict(e)
                            e2["case"], e2["used"] = k, frozenset([i])
                            e2[i] = REF - d
                            nxt.append((e2, (q or (nm if wrong else None)), soft))
                    else:
                        e = dict(e)
                        e["used"] = e["used"] | {i}
                        e[i] = REF - CASES[e["case"]][1]
                        nxt.append((e, q, soft))
                envs = nxt
                continue
            if i not in s.need: continue
            for e, q, soft in envs: e[i] = s.step(i, e)
        out = []
        t = b.ins[-1]
        for e, q, soft in envs:
            if t.op == "unreachable": continue
            if t.op == "ret":
                s.paths += 1
                s.verdict(t, s.get(e, t.ops[0]) if t.ops else None, q, soft)
                continue
            if t.op == "br" and not t.ops: nx = [(t.succ[0], soft)]
            else:
                c = s.get(e, t.ops[0])
                if isinstance(c, TopT):
                    nx = [(x, soft or (loc(t) if c is SOFT else None)) for x in dict.fromkeys(t.succ)]
                elif t.op == "br": nx = [(t.succ[0] if c else t.succ[1], soft)]
                else: nx = [(t.succ[1 + t.idx.index(c)] if c in t.idx else t.succ[0], soft)]
            for x, sf in nx:
                e2 = s.prune(e, x, b)
                out.append((x, b, e2, q, sf))
        return out

    def prune(s, e, to, frm):
        """values that are still used; the situation of an element ends with its iteration"""
        live = s.livein(to)
        phi = {v for i in to.ins if i.op == "phi" for v, p in i.inc if p is frm}
        k = {x: v for x, v in e.items() if x in ("case", "used") or x in live or x in phi}
        if to in s.fresh or to not in s.inner: k.pop("case", None), k.pop("used", None)
        return frozenset(k.items())

    def prepare(s):
        top, of, *_ = N.loop_forest(s.fn)
        s.fresh, s.inner = set(), set()
        for i in s.live:
            l = of.get(i.bb)
            if l is not None:
                s.fresh.add(l.head)
                s.inner |= set(l.blocks)
        gen, use = {}, {}
        for b in s.fn.blocks:
            d, u = set(), set()
            for i in b.ins:
                if i.op != "phi": u |= {o for o in i.ops if getattr(o, "kind", "") == "instr" and o not in d}
                d.add(i)
            gen[b], use[b] = d, u
        s.li = {b: set(use[b]) for b in s.fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.fn.blocks):
                o = set()
                for q in b.succ:
                    o |= {x for x in s.li[q] if not (x.op == "phi" and x.bb is q)}
                    o |= {v for i in q.ins if i.op == "phi" for v, p in i.inc if p is b and getattr(v, "kind", "") == "instr"}
                n = use[b] | (o - gen[b])
                n |= {i for i in b.ins if i.op == "phi"}
                if n != s.li[b]:
                    s.li[b] = n
                    ch = True
        return s

    def agree(s):
        """outcome of every comparison when the elements agree"""
        r = {}

        def val(v):
            if getattr(v, "kind", "") != "instr": return s.get({}, v)
            if v in s.live or v in s.liver: return REF
            if v.op in ("phi", "load"): return SOFT
            e = {o: val(o) for o in v.ops}
            return s.step(v, {k: x for k, x in e.items() if getattr(k, "kind", "") == "instr"})
        for i, c, _ in s.cmp:
            if i.op != "fcmp" or any(o.op == "phi" for o in i.ops if getattr(o, "kind", "") == "instr"): continue
            v = val(i)
            if not isinstance(v, TopT): r[i] = TRUE if v else FALSE
        return r

    def livein(s, b): return s.li[b]

    def step(s, i, e):
        a = [s.get(e, o) for o in i.ops]
        op = i.op
        if i in s.liver: return REF
        if op == "load":
            return SOFT if i.ty.k not in ("float", "double") else SOFT
        if op == "gep": return PTR
        if op in ("freeze", "fpext", "bitcast"): return a[0]
        if op == "fptrunc": return f32(a[0])
        if op in ("zext", "sext", "trunc"):
            if isinstance(a[0], TopT): return a[0] if not (op == "trunc" and a[0] is BIG) else TOP
            if op == "sext" and i.ops[0].ty.w == 1: return -a[0]
            return a[0] & ((1 << i.ty.w) - 1) if op == "trunc" and i.ty.w == 1 else a[0]
        if op == "fcmp": return fcmp(i.pred, *a)
        if op == "icmp":
            if any(x is PTR for x in a): return (1 if i.pred == "ne" else 0) if a[1] == 0 and i.ops[0] in s.ref | {s.C} else TOP
            return icmp(i.pred, *a)
        if op == "select":
            if isinstance(a[0], TopT): return a[1] if a[1] == a[2] else (SOFT if a[0] is SOFT else TOP)
            return a[1] if a[0] else a[2]
        if op in ("and", "or", "xor") and i.ty.w == 1 or op in ("and", "or"):
            x, y = a
            if op == "and" and (x == 0 or y == 0) and not (x is BIG or y is BIG): return 0
            if op == "and" and (x is not BIG and y is not BIG) and 0 in (x, y): return 0
            if op == "or" and (x is BIG or y is BIG) and not any(t is SOFT for t in a): return BIG
            if op == "or" and i.ty.w == 1 and 1 in (x, y): return 1
        if any(x is SOFT for x in a): return SOFT
        if any(isinstance(x, TopT) for x in a):
            if op == "add" and all(x is BIG or (isinstance(x, int) and x >= 0) for x in a): return BIG
            return TOP
        try:
            if op == "add": r = a[0] + a[1]
            elif op == "sub": r = a[0] - a[1]
            elif op == "mul": r = a[0] * a[1]
            elif op == "and": r = a[0] & a[1]
            elif op == "or": r = a[0] | a[1]
            elif op == "xor": r = a[0] ^ a[1]
            elif op in ("fadd", "fsub", "fmul", "fdiv"):
                x, y = a
                r = x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y
                return f32(r) if i.ty.k == "float" else r
            elif op == "fneg": return -a[0]
            elif op == "call": return s.call(i, a)
            else: return SOFT
        except (ArithmeticError, TypeError, ValueError): return SOFT
        return BIG if isinstance(r, int) and r > 2 else TOP if r < -1 else r

    def call(s, i, a):
        n = getattr(getattr(i, "callee", None), "name", "") or ""
        d = F.demangle_name(n)
        if "fabs" in n or d in ("fabs", "fabsf", "abs"): return abs(a[0])
        if "sqrt" in n: return math.sqrt(a[0])
        if d in ("isnan",): return int(math.isnan(a[0]))
        if d in ("isinf",): return int(math.isinf(a[0]))
        if "is.fpclass" in n:
            m, x = a[1], a[0]
            c = 3 if math.isnan(x) else (0x200 if x > 0 else 4) if math.isinf(x) else 0x60 if x == 0 else (0x100 if x > 0 else 8)
            return int(bool(m & c))
        if "maxnum" in n or d in ("fmax", "fmaxf"): return a[1] if math.isnan(a[0]) else a[0] if math.isnan(a[1]) else max(a)
        if "minnum" in n or d in ("fmin", "fminf"): return a[1] if math.isnan(a[0]) else a[0] if math.isnan(a[1]) else min(a)
        return SOFT

    def verdict(s, t, v, q, soft):
        if v is SOFT or (v is not BIG and isinstance(v, TopT)): s.und[loc(t)] = "the verdict is not decided by the comparisons"
        elif q and v == 0: (s.und if soft else s.bad).setdefault((loc(t), q), "reports success although an element is %s" % q if q in ("NaN", "+inf", "-inf") else "reports success although an element is %s" % q)
        elif not q and v != 0: (s.und if soft else s.bad).setdefault((loc(t), "agree"), "reports failure although every element agrees")


def f32(x):
    import struct
    if isinstance(x, TopT) or math.isnan(x) or math.isinf(x): return x
    return struct.unpack("f", struct.pack("f", x))[0]


def fcmp(p, x, y):
    if isinstance(x, TopT) or isinstance(y, TopT): return SOFT
    u = math.isnan(x) or math.isnan(y)
    if p == "ord": return int(not u)
    if p == "uno": return int(u)
    if p in ("true", "false"): return int(p == "true")
    if u: return int(p[0] == "u")
    return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]])


def icmp(p, x, y):
    if SOFT in (x, y): return SOFT
    if x is BIG and isinstance(y, int) and 0 <= y <= 2: return int(p in ("ne", "sgt", "sge", "ugt", "uge"))
    if y is BIG and isinstance(x, int) and 0 <= x <= 2: return int(p in ("ne", "slt", "sle", "ult", "ule"))
    if isinstance(x, TopT) or isinstance(y, TopT): return TOP
    if p[0] == "u" and (x < 0 or y < 0): return TOP
    q = p[1:] if p[0] in "us" else p
    return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q])


def tree(i):
    """loads that a comparison is computed from"""
    seen, st, r = set(), [i], []
    while st:
        v = st.pop()
        for o in v.ops:
            if getattr(o, "kind", "") != "instr" or o in seen: continue
            seen.add(o)
            if o.op == "load": r.append(o)
            elif o.op in ("fsub", "fadd", "fmul", "fdiv", "fneg", "fpext", "fptrunc", "call", "select", "freeze", "phi"): st.append(o)
    return r


class Reads(inst.Host):
    """records what the comparison reads"""
    def load(s, ev, k, off, w):
        super().load(ev, k, off, w)
        if ev.ins in s.want: s.got.setdefault(ev.ins, []).append((k, off, s.reg.get((k, off))))


def coverage(rep, P, m, fn, prod):
    """closed-form reads of the comparison at a set of shapes"""
    it = N.Interp(P.mod, fn, {}, names=P.names, lets=True)
    it.force = m.agree()
    it.run()
    gen = inst.Gen(it.events, lets=it.letdefs)
    ids = {a.name: it.env[a].obj.id for a in fn.args if a.name in ("A", "B", "C") and a.ty.k == "ptr"}
    nm = U.name(fn)
    if prod:
        t = drv.taint(gen, it, it.events)
        for w in t: rep.undec("coverage", "%s: %s" % (nm, w))
        if t: return
    shapes = [(1, 1, 1), (1, 7, 2), (5, 1, 3), (2, 3, 4), (4, 4, 4), (7, 5, 3), (3, 9, 8), (8, 6, 9), (16, 17, 5), (33, 4, 2)]
    for M, Nn, K in shapes:
        E = drv.Env({**drv.MACHINE, "M": M, "N": Nn, "K": K, "p": 2})
        h = Reads(E, gen.objs, {ids[x]: (x, {"A": 4 * M * K, "B": 4 * K * Nn, "C": 4 * M * Nn}[x]) for x in ids})
        h.want, h.got = m.live | m.liver, {}
        try: gen.run(E, h)
        except (inst.Stop, ValueError, OverflowError, ZeroDivisionError, TypeError, KeyError, MemoryError) as x:
            rep.undec("coverage", "%s: %s" % (nm, str(x)[:100]))
            return
        rep.count("shapes")
        at = "[M=%d, N=%d, K=%d]" % (M, Nn, K)
        for r, e, t in h.bad:
            if r.startswith("bounds") or r == "readonly": rep.violation("coverage", e.loc(), "%s: %s   %s" % (nm, t, at))
        seen = set()
        for i, c, r in m.cmp:
            if not c or not r: continue
            oc = [o for x in c[:1] for _, o, _ in h.got.get(x, ())]
            rr = [(o, v) for x in r[:1] for _, o, v in h.got.get(x, ())]
            if len(oc) != len(rr):
                rep.undec("coverage", "%s: %d elements against %d references" % (loc(i), len(oc), len(rr)))
                return
            rep.count("element comparisons", len(oc))
            for o, (o2, v) in zip(oc, rr):
                seen.add(o)
                if o != o2:
                    rep.violation("coverage", loc(i), "%s: element %d of C is compared with the reference of element %d   %s" % (nm, o // 4, o2 // 4, at))
                    return
                if prod and 0 <= o < 4 * M * Nn:
                    row, col = divmod(o // 4, Nn)
                    want = {(("A", 4 * (row * K + k)), ("B", 4 * (k * Nn + col))): 1 for k in range(K)}
                    if v != want:
                        rep.violation("reference", loc(i), "%s: the reference for C[%d][%d] is not the sum of A[%d][k]*B[k][%d] over all k   %s" % (nm, row, col, row, col, at))
                        return
        miss = [o for o in range(0, 4 * M * Nn, 4) if o not in seen]
        if miss:
            rep.violation("coverage", loc(m.cmp[0][0]), "%s: C[%d][%d] and %d more elements are never compared   %s" % ((nm,) + divmod(miss[0] // 4, Nn) + (len(miss) - 1, at)))
            return
    rep.ok("coverage", "%s: every element is compared with its own reference at %d shapes" % (nm, len(shapes)), len(shapes))


def c26(rep):
    rep.technique = "abstract machine over all paths of the checkers (verdict), closed-form read relation (coverage, reference)"
    P = D.Program(["cake_sgemm_checker", "add_checker"], tag="checkers")
    for n, prod in (("cake_sgemm_checker", True), ("add_checker", False)):
        fn = P.fns[n]
        m = Machine(fn, "C").prepare()
        rep.count("checkers")
        rep.count("comparisons", len(m.cmp))
        if not m.cmp: 
            rep.undec("verdict", "%s: no comparison of an element of C found" % n)
            continue
        if not m.liver or not m.live:
            rep.undec("verdict", "%s: comparisons do not read both C and the reference directly" % n)
            continue
        m.run()
        rep.count("abstract states", m.steps)
        for (w, q), t in m.bad.items(): rep.violation("verdict", w, "%s %s" % (n, t))
        for w, t in list(m.und.items())[:5]: rep.undec("verdict", "%s: %s %s" % (n, w, t))
        if not m.bad and not m.und: rep.ok("verdict", "%s: returns 0 exactly when no element differs, in %d abstract states" % (n, m.steps), max(1, m.paths))
        coverage(rep, P, m, fn, prod)
    rep.need("checkers", 2)
