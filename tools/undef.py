"""C09: nothing that was never assigned reaches a branch, an address, a loop bound, a stored value or a result.

Promotion of locals to SSA leaves an explicit "undefined" wherever a path reaches a use without an assignment; the closed
forms keep it together with the condition of that path, and a use counts only if the condition of the use allows it.
"""
import random
import typestate as T, interp as N, units as U, frontend as F, irload as I, drivers as D, drv, kernels
from frontend import Broken
from common import fork_map
from interp import loc
from expr import *
from prover import Ctx
from ev import Eval
from inst import Opaque

BAD = ("undef:", "uninit ", "undef")


def is_undef(a):
    return a.kind == "unk" and str(a.args[0]).startswith(BAD)


def op_undef(c):
    return c.op == "op" and str(c.p[0] if isinstance(c.p, tuple) else c.p).startswith(BAD)


class Live:
    """conditions under which a value depends on something never assigned"""

    def __init__(s, lets): s.lets, s.has = lets, {}

    def any(s, x):
        """does x mention an undefined value at all? (memoised)"""
        if x is None or isinstance(x, (int, str, float)): return False
        if isinstance(x, tuple): return any(s.any(y) for y in x)
        if isinstance(x, Ptr): return s.any(x.off) or any(s.any(y) for y in x.idx)
        if isinstance(x, PIte): return s.any(x.c) or s.any(x.a) or s.any(x.b)
        if not isinstance(x, (Poly, BDD, Atom, Cmp, FE)): return False
        k = (type(x), id(x) if not hasattr(x, "id") else x.id)
        r = s.has.get(k)
        if r is not None: return r
        s.has[k] = False
        if isinstance(x, Poly): r = any(s.any(a) for a in x.atoms())
        elif isinstance(x, BDD): r = x.v is not None and (s.any(x.v) or s.any(x.hi) or s.any(x.lo))
        elif isinstance(x, Cmp): r = op_undef(x) or s.any(x.p)
        elif isinstance(x, FE): r = any(s.any(y) for y in x.args)
        else: r = is_undef(x) or (x in s.lets and s.any(s.lets[x])) or any(s.any(y) for y in x.args)
        s.has[k] = r
        return r

    def when(s, x, g):
        """[(condition, undefined thing)]"""
        if g is FALSE or not s.any(x): return
        if isinstance(x, tuple):
            for y in x: yield from s.when(y, g)
        elif isinstance(x, Ptr):
            yield from s.when(x.off, g)
            for y in x.idx: yield from s.when(y, g)
        elif isinstance(x, PIte):
            yield from s.when(x.c, g)
            yield from s.when(x.a, band(g, x.c))
            yield from s.when(x.b, band(g, bnot(x.c)))
        elif isinstance(x, Poly):
            for a in x.atoms(): yield from s.when(a, g)
        elif isinstance(x, BDD):
            x = restrict(x, g)
            if x.v is None or not s.any(x): return
            yield from s.when(x.v, g)
            yield from s.when(x.hi, band(g, bvar(x.v)))
            yield from s.when(x.lo, band(g, bnot(bvar(x.v))))
        elif isinstance(x, Cmp):
            if op_undef(x): yield g, str(x.p[0])
            else: yield from s.when(x.p, g)
        elif isinstance(x, FE):
            for y in x.args: yield from s.when(y, g)
        elif isinstance(x, Atom):
            if is_undef(x): yield g, str(x.args[0]).split("#")[0]
            elif x in s.lets: yield from s.when(s.lets[x], g)
            elif x.kind == "ite":
                c = x.args[0]
                yield from s.when(c, g)
                yield from s.when(x.args[1], band(g, c))
                yield from s.when(x.args[2], band(g, bnot(c)))
            else:
                for y in x.args: yield from s.when(y, g)


def possible(g, lets, R):
    """True: a valuation satisfies g; False: refuted; None: neither"""
    if g is TRUE: return True
    if g is FALSE: return False
    try:
        if Ctx([]).assume(g).bad(): return False
    except Exception: pass
    at = set()
    todo = [g]
    while todo:
        for a in all_atoms(todo.pop()):
            if a in at or a.kind in ("ite", "div", "cdiv", "max0", "fdiv", "fn", "ftoi", "fc"): continue
            at.add(a)
            if a in lets: todo.append(lets[a])
    ops = {c for c in cmps(g, lets) if c.op == "op"}
    free = [a for a in at if a not in lets]
    err = False
    for i in range(600):
        env = {a: R.choice((0, 1, 1, 2, 3, 5, 8, R.randint(1, 40))) if a.kind != "sym" or i % 2 else R.randint(1, 9) for a in free}
        env.update({c: R.random() < .5 for c in ops})
        try:
            if LetEval(env, lets).bdd(g): return True
        except (Opaque, ZeroDivisionError, ValueError, OverflowError): err = True
    return None


class LetEval(Eval):
    def __init__(s, env, lets):
        Eval.__init__(s, env)
        s.lets = lets

    def _atom(s, a):
        if a in s.lets and a not in s.env: return s.poly(s.lets[a])
        return Eval._atom(s, a)


def cmps(x, lets, acc=None, seen=None):
    """all comparisons inside x"""
    acc, seen = (set() if acc is None else acc), (set() if seen is None else seen)
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, (str, int, float)) or y is None: continue
        k = (type(y), getattr(y, "id", id(y)))
        if k in seen: continue
        seen.add(k)
        if isinstance(y, BDD):
            if y.v is not None: st += [y.v, y.hi, y.lo]
        elif isinstance(y, Cmp):
            acc.add(y)
            if y.op != "op": st.append(y.p)
        elif isinstance(y, tuple): st += list(y)
        elif isinstance(y, Poly): st += list(y.atoms())
        elif isinstance(y, Atom):
            st += list(y.args)
            if y in lets: st.append(lets[y])
    return acc


FLOW = ("load", "store", "kernel", "packk", "memset", "memcpy", "alloc", "free", "loop", "call", "pstore", "pload")


def judge(it, label, results=True):
    """[(verdict, where, text)] for one summary"""
    out = []
    lets = {a if not isinstance(a, Poly) else next(iter(a.atoms())): v for a, v in it.letdefs.items()}
    L = Live(lets)
    R = random.Random(1)
    n = 0
    seen = set()

    def put(what, e, x, g):
        for c, t in L.when(x, g):
            k = (what, e.loc() if e is not None else "", t)
            if k in seen: return
            seen.add(k)
            p = possible(c, lets, R)
            if p is False: continue
            out.append(("bad" if p else "undec", e.loc() if e is not None else label,
                        "%s: %s %s %s, which is never assigned on some path" % (label, what, e.kind if e is not None else "", t.replace("undef:", "value ").replace("uninit ", "memory "))))
            return
    for e, st in N.walk(it.events):
        if e.kind == "uninit":
            out.append(("bad", e.loc(), "%s: reads %s before anything is stored there" % (label, e.ptr)))
            continue
        g = e.guard
        for l in st: g = band(g, l.guard) if l.guard is not TRUE else g
        for f in e.fields():
            if f in ("width", "how", "kind", "fname"): continue
            x = getattr(e, f)
            if f == "guard":
                n += 1
                gg = TRUE
                for l in st: gg = band(gg, l.guard) if l.guard is not TRUE else gg
                put("a branch in front of", e, x, gg)
            elif isinstance(x, (Poly, BDD, Ptr, PIte, tuple, FE)):
                n += 1
                if e.kind == "store" and f == "val":
                    # copying is no decision: a copied value counts where it is used; a value stored to a caller's object does
                    o = e.ptr.obj if isinstance(e.ptr, Ptr) else None
                    if o is None or o.kind == "stack": continue
                put({"ptr": "an address of", "off": "an address of", "T": "a loop bound of", "size": "a size of", "len": "a length of"}.get(f, "an operand of"), e, x, g)
    if results:
        for c, v, m in it.rets:
            if c is FALSE: continue
            n += 1
            put("the result", None, v, c)
    return n, out


def structs(rep, mod, fs, lay):
    """objects a function makes and returns: every field anybody reads is assigned"""
    names = {("struct." + st, o): n for st, f in lay.items() for o, n in f.items()}
    read = {}
    for u in U.load():
        for f in u.mod.funcs.values():
            for b, i in U.instrs(f) if f.blocks else ():
                if i.op == "load" and getattr(i.ops[0], "op", "") == "gep":
                    g = i.ops[0]
                    if g.srcty.k == "struct" and g.srcty.name and len(g.ops) == 3 and getattr(g.ops[2], "kind", "") == "const":
                        st = g.srcty.name.split(".")[-1]
                        fl = lay.get(st, {}).get(g.srcty.offs[g.ops[2].v])
                        if fl: read.setdefault(st, {}).setdefault(fl, loc(i).split(" ")[0])
    for f in fs:
        if f.blocks and f.name and retty(f) != "ptr" or U.name(f) == "run_tests": continue
        it = N.Interp(mod, f, {}, names=names, kernel=D.KERNEL, lets=True).run()
        L = Live({a if not isinstance(a, Poly) else next(iter(a.atoms())): v for a, v in it.letdefs.items()})
        for c, v, m in it.rets:
            if c is FALSE: continue
            for o in objs(v):
                if o.kind != "heap": continue
                st = (getattr(o, "struct", "") or "").split(".")[-1]
                if st not in lay: continue
                rep.count("returned objects")
                for off, fl in sorted(lay[st].items()):
                    if fl not in read.get(st, {}): continue
                    rep.count("fields of returned objects")
                    x = m.get((o, off))
                    if x is None and not o.zero and o.base is None:
                        rep.violation("field assigned", U.name(f), "%s returns a %s whose field %s is never assigned; it is read at %s" % (U.name(f), st, fl, read[st][fl]))
                    elif x is not None and any(possible(g, L.lets, random.Random(2)) for g, _ in L.when(x, c)):
                        rep.violation("field assigned", U.name(f), "%s returns a %s whose field %s depends on a value that is never assigned; it is read at %s" % (U.name(f), st, fl, read[st][fl]))
                    else: rep.ok("field assigned", "%s: %s.%s" % (U.name(f), st, fl))


def objs(v):
    if isinstance(v, Ptr): return [v.obj]
    if isinstance(v, PIte): return objs(v.a) + objs(v.b)
    return []


def retty(f):
    for b, i in U.instrs(f):
        if i.op == "ret": return i.ops[0].ty.k if i.ops else "void"
    return "void"


def c09(rep):
    rep.technique = ("definite assignment: undefined SSA values and never-written cells followed through the closed-form summary of every library function "
                     "and every driver scenario (OpenMP private copies included) to branches, addresses, bounds, stored values and results")
    rep.assume = ["a command's output may fill any part of a text buffer (C19)", "operands and a context handed in by the caller are initialised"]
    mod, fs = T.loops_program()
    lay = D.layouts(T._prog["path"])
    names = {("struct." + st, o): n for st, f in lay.items() for o, n in f.items()}
    todo = [f for f in fs if U.name(f) not in SKIP]

    def one(f):
        nm = U.name(f)
        it = N.Interp(mod, f, {}, names=names, kernel=D.KERNEL, lets=True).run()
        n, out = judge(it, nm)
        return nm, n, out, [(N.loc(i), w) for i, w in it.issues]
    res = []
    for k in range(0, len(todo), 16): res += fork_map(lambda l: [one(f) for f in l], [todo[k:k + 16][i::8] for i in range(8)])
    for l in res:
        for nm, n, out, iss in l:
            rep.count("functions")
            rep.count("uses examined", n)
            for w, t in iss: rep.undec("summary", "%s %s %s" % (nm, w, t))
            report(rep, nm, n, out)
    rep.need("functions", 30)
    structs(rep, mod, fs, lay)
    rep.need("returned objects", 1)
    rep.need("fields of returned objects", 6)
    # drivers with their parallel regions
    P = D.Program.get()
    jobs = drv.jobset(P, ("gemm", "beta", "online", "packed", "roundtrip"))
    for j in jobs:
        n, out = judge(j.scn.it, j.name, False)
        rep.count("scenarios")
        rep.count("uses examined", n)
        report(rep, j.name, n, out)
    m = I.Module(F.program(["transpose_mat"], skip=("dense.cpp", "blis_pack_haswell.cpp"), tag="transpose"))
    f = {F.demangle_name(n): f for n, f in m.funcs.items() if f.blocks}.get("transpose_mat")
    if f is None: raise Broken("transpose_mat not found")
    n, out = judge(N.Interp(m, f, {}).run(), "transpose_mat")
    report(rep, "transpose_mat with its parallel loop", n, out)
    # what is read from memory during packing, computing and unpacking
    t = rep.technique
    drv.decide(rep, "C09")
    rep.technique = t + "; element-wise initialisation of every packed buffer over the access relations"
    # text buffers
    import probe
    if hasattr(probe, "unfilled"): probe.unfilled(rep)


SKIP = {"run_tests"}        # a self-test: only calls the drivers, which are analysed here one by one


def report(rep, nm, n, out):
    for v, w, t in out:
        if v == "bad": rep.violation("assigned before use", w, t)
        else: rep.undec("assigned before use", "%s %s" % (w, t))
    if not out: rep.ok("assigned before use", "%s: %d uses" % (nm, n))
