"""Path-sensitive typestate of heap blocks and pipes (C08, C10, C19).

Every library function is analysed with its callees inlined.  For each acquisition site one resource is followed
through the control-flow graph: which SSA values and memory cells hold it, whether it was tested against NULL, used,
released, handed to the caller.  States are kept per path as long as they differ; a branch on the same loop-invariant
condition as an earlier one is only followed the way the earlier one went.
"""
import frontend as F, irload as I, interp as N, units as U
from frontend import Broken
from interp import loc

HEAP = {"malloc", "calloc", "realloc", "aligned_alloc", "valloc", "memalign", "strdup", "strndup"}
NEW = {"_Znwm": "_ZdlPv", "_Znam": "_ZdaPv", "_ZnwmRKSt9nothrow_t": "_ZdlPv", "_ZnamRKSt9nothrow_t": "_ZdaPv"}
HEAP |= set(NEW)
DELETE = {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"}
FILES = {"popen": "pclose", "fopen": "fclose", "fdopen": "fclose", "tmpfile": "fclose"}
F_NAME = {"_ZdlPv": "delete", "_ZdlPvm": "delete", "_ZdaPv": "delete[]", "_ZdaPvm": "delete[]"}
NORETURN = {"exit", "abort", "_exit", "_Exit", "quick_exit", "__assert_fail", "longjmp", "err", "errx"}
PURE = ("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.donothing", "llvm.prefetch", "llvm.stack", "llvm.experimental", "llvm.var")
LIMIT = 60000

_prog = {}


def program():
    """[(Func)] of all library functions with external linkage, fully inlined"""
    if "p" in _prog: return _prog["p"]
    lls = F.compile_all()
    names = []
    for src, p in lls.items():
        if "kernels" in src or "verif_client" in src: continue
        m = I.Module(p)
        for f in m.funcs.values():
            if f.blocks and ".omp_outlined" not in f.name and f.linkage == 0: names.append(F.demangle_name(f.name))
    names = sorted({n for n in names if not n.startswith("_GLOBAL")})
    if not names: raise Broken("no library functions found")
    path = F.program(names, tag="every")
    q = path.replace("all.ll", "cse.ll")
    F.run([F.OPT, "-S", path, "-o", q, "-passes=function(early-cse<memssa>,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup>,adce,loop-simplify,lcssa)"])
    mod = I.Module(q)
    fs = [f for f in mod.funcs.values() if f.blocks and F.demangle_name(f.name) in names]
    _prog["p"], _prog["path"], _prog["loops"], _prog["names"] = (mod, fs), q, path, names
    return _prog["p"]


def loops_program():
    """the same functions before redundancy elimination: loops in simplified, closed form"""
    program()
    if "lp" not in _prog:
        mod = I.Module(_prog["loops"])
        _prog["lp"] = mod, [f for f in mod.funcs.values() if f.blocks and F.demangle_name(f.name) in _prog["names"]]
    return _prog["lp"]


def callname(i):
    c = i.callee
    if hasattr(c, "blocks"): return F.demangle_name(c.name)
    return None


def root(v):
    """(root, constant byte offset or None, defining address)"""
    off = 0
    w = v
    while getattr(w, "kind", "") == "instr" and w.op in ("gep", "bitcast", "addrspacecast", "freeze"):
        if w.op == "gep":
            if all(getattr(x, "kind", "") == "const" for x in w.ops[1:]):
                if off is not None: off += gepoff(w)
            else: off = None
        w = w.ops[0]
    return w, off, (v if off is None else None)


def gepoff(g):
    t = g.srcty
    o = g.ops[1].v * t.size
    for x in g.ops[2:]:
        if t.k == "struct":
            o += t.offs[x.v]; t = t.fields[x.v]
        else:
            t = t.elem; o += x.v * t.size
    return o


def isnull(v): return getattr(v, "kind", "") == "null" or (getattr(v, "kind", "") == "zero")
def iszero(v): return getattr(v, "kind", "") == "const" and v.v == 0


class Loops:
    def __init__(s, fn):
        top, s.inner, s.rpo, s.idom, s.num = N.loop_forest(fn)

    def depth(s, b):
        n, l = 0, s.inner.get(b)
        while l: n, l = n + 1, l.parent
        return n


def key(v, lp, d=0):
    """canonical form of a condition over values that are fixed for the whole call; None if it is not one"""
    if d > 12: return None
    k = getattr(v, "kind", "")
    if k == "arg": return ("arg", v.name)
    if k in ("const",): return ("c", v.v)
    if k in ("null", "zero"): return ("c", 0)
    if k == "fconst": return ("f", v.v)
    if k == "instr":
        if v.op in ("zext", "trunc", "sext", "freeze"): return key(v.ops[0], lp, d + 1)
        if v.op == "phi" or v.op == "load" or v.op == "call":
            return None if lp.inner.get(v.bb) else ("v", v.n)
        if v.op in ("alloca",): return None
        r = [key(x, lp, d + 1) for x in v.ops]
        if None in r: return None
        if v.op in ("icmp", "fcmp"):
            p = v.pred
            if r[1] == ("c", 0) and p == "ne" and bool_like(v.ops[0]): return r[0]
            if r[1] == ("c", 0) and p == "eq" and bool_like(v.ops[0]): return ("not", r[0])
            inv = {"ne": "eq", "sge": "slt", "sle": "sgt", "uge": "ult", "ule": "ugt", "une": "oeq"}
            if p in inv: return ("not", (inv[p], r[0], r[1]))
            return (p, r[0], r[1])
        if v.op == "xor" and r[1] in (("c", 1), ("c", -1)) and bool_like(v): return ("not", r[0])
        return (v.op,) + tuple(r)
    return None


def bool_like(v):
    if v.ty.k == "int" and v.ty.w == 1: return True
    return getattr(v, "kind", "") == "instr" and v.op in ("zext", "trunc", "freeze") and bool_like(v.ops[0]) or \
        getattr(v, "kind", "") == "instr" and v.op == "and" and iszero1(v.ops[1])


def iszero1(v): return getattr(v, "kind", "") == "const" and v.v == 1


def canon(k):
    t = True
    while isinstance(k, tuple) and k and k[0] == "not": k, t = k[1], not t
    return k, t


class Site:
    def __init__(s, kind, ins, what):
        s.kind, s.ins, s.what = kind, ins, what     # kind: heap memalign file arg

    def __hash__(s): return hash((s.kind, s.what if isinstance(s.what, str) else 0, s.ins))


class St:
    """one path state"""
    __slots__ = ("st", "names", "cells", "arr", "esc", "facts", "codes")

    def __init__(s, st="none", names=frozenset(), cells=frozenset(), arr=frozenset(), esc=False, facts=frozenset(), codes=frozenset()):
        s.st, s.names, s.cells, s.arr, s.esc, s.facts, s.codes = st, names, cells, arr, esc, facts, codes

    def key(s): return (s.st, s.names, s.cells, s.arr, s.esc, s.facts, s.codes)
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return s.key() == o.key()

    def but(s, **k):
        r = St(s.st, s.names, s.cells, s.arr, s.esc, s.facts, s.codes)
        for a, b in k.items(): setattr(r, a, b)
        return r


class Analysis:
    def __init__(s, fn, site, lp, corr):
        s.fn, s.site, s.lp, s.corr = fn, site, lp, corr
        s.bad = []          # (rule, ins, text)
        s.visited = 0
        s.checked = s.released = s.returned = s.incomplete = False

    def flag(s, rule, i, text):
        if (rule, i, text) not in s.bad: s.bad.append((rule, i, text))

    # ---- values
    def holds(s, st, v):
        """'yes' | 'elem' | None"""
        w, off, _ = root(v)
        if w in st.names: return "yes"
        if getattr(w, "kind", "") == "instr" and w.op == "select":
            if s.holds(st, w.ops[1]) or s.holds(st, w.ops[2]): return "may"
        return "elem" if ("elem", w) in st.names else None

    def cellof(s, p):
        w, off, a = root(p)
        return (w, off, a)

    def refine(s, st, c, truth, d=0):
        """state after condition c came out as truth; None when that is impossible"""
        if getattr(c, "kind", "") == "const": return st if bool(c.v) == truth else None
        if getattr(c, "kind", "") != "instr" or d > 8: return s.fact(st, c, truth)
        if c.op == "xor" and len(c.ops) == 2 and iszero1(c.ops[1]): return s.refine(st, c.ops[0], not truth, d + 1)
        if c.op in ("zext", "trunc", "freeze"): return s.refine(st, c.ops[0], truth, d + 1)
        if c.ty.k == "int" and c.ty.w == 1 and c.op in ("or", "and", "select"):
            a, b = c.ops[0], c.ops[1]
            isor = c.op == "or"
            if c.op == "select":
                if getattr(c.ops[1], "kind", "") == "const" and c.ops[1].v: isor, b = True, c.ops[2]
                elif getattr(c.ops[2], "kind", "") == "const" and not c.ops[2].v: isor, b = False, c.ops[1]
                else: return s.fact(st, c, truth)
            if isor != truth:
                st = s.refine(st, a, truth, d + 1)
                return None if st is None else s.refine(st, b, truth, d + 1)
            x, y = s.refine(st, a, truth, d + 1), s.refine(st, b, truth, d + 1)
            if x is None and y is None: return None
            if x is None: return y
            if y is None: return x
            return s.fact(st, c, truth)
        if c.op == "icmp":
            a, b, p = c.ops[0], c.ops[1], c.pred
            if isnull(a) or iszero(a) and not iszero(b): a, b = b, a
            if isnull(b) and p in ("eq", "ne"):
                nul = (p == "eq") == truth
                h = s.holds(st, a)
                if h == "yes":
                    s.checked = True
                    if s.site.kind == "arg": return st
                    if st.st == "null": return st if nul else None
                    if st.st == "ok": return None if nul else st
                    if st.st == "U": return st.but(st="null" if nul else "ok")
                    return st
                if h == "elem":
                    s.checked = True
                    if st.st == "U": return st.but(st="null" if nul else "ok")
                    return st
                if h is None and isnull(a): return st if nul else None
                if h is None and getattr(a, "kind", "") == "instr" and a.op in ("call", "alloca") and a.bb is not None and nul and a.op == "alloca": return None
            if iszero(b) and p in ("eq", "ne"):
                z = (p == "eq") == truth
                if a in st.codes:
                    s.checked = True
                    if st.st == "U": return st.but(st="ok" if z else "null")
                    if st.st == "null": return None if z else st
                    if st.st == "ok": return st if z else None
                    return st
                if getattr(a, "kind", "") == "instr" and a.op == "or" and z:
                    st2 = st
                    for x in s.ors(a):
                        if x in st.codes:
                            s.checked = True
                            if st2.st == "U": st2 = st2.but(st="ok")
                            elif st2.st == "null": return None
                    return s.fact(st2, c, truth)
                if getattr(a, "kind", "") == "instr" and a.op in ("zext", "trunc") and a.ops[0].ty.k == "int" and a.ops[0].ty.w == 1:
                    return s.refine(st, a.ops[0], not z, d + 1)
        return s.fact(st, c, truth)

    def ors(s, a, d=0):
        if getattr(a, "kind", "") == "instr" and a.op == "or" and d < 8:
            for x in a.ops: yield from s.ors(x, d + 1)
        elif getattr(a, "kind", "") == "instr" and a.op in ("zext", "sext", "trunc"): yield from s.ors(a.ops[0], d + 1)
        else: yield a

    def fact(s, st, c, truth):
        k = key(c, s.lp)
        if k is None: return st
        k, t = canon(k)
        truth = truth == t
        if k not in s.corr: return st
        for q, v in st.facts:
            if q == k: return st if v == truth else None
        return st.but(facts=st.facts | {(k, truth)})

    # ---- transfer
    def use(s, st, v, i, how):
        h = s.holds(st, v)
        if not h: return
        if s.site.kind == "arg": return
        if st.st in ("U", "null") and h in ("yes", "elem"):
            s.flag("unchecked", i, "%s may be missing where it is %s" % (s.site.what, how))
        if st.st == "freed" and h == "yes": s.flag("use after release", i, "%s is %s after its release" % (s.site.what, how))

    def step(s, st, i):
        """list of states after i"""
        o = i.op
        if i is s.site.ins:
            if st.st in ("U", "ok") and not st.esc and not st.arr and s.site.kind != "arg":
                s.flag("leak", i, "%s is acquired again while the previous one is still held" % s.site.what)
            if s.site.kind == "memalign":
                c = s.cellof(i.args[0])
                arr = st.arr | {c[0]} if c[1] is None else st.arr
                return [St("U", frozenset(), frozenset([c]), arr, False, st.facts, frozenset([i]))]
            ok = callname(i) in NEW and "nothrow" not in callname(i)
            if ok: s.checked = True
            return [St("ok" if ok else "U", frozenset([i]), frozenset(), st.arr, False, st.facts, frozenset())]
        if o == "load":
            s.use(st, i.ops[0], i, "read through")
            if i in st.names or ("elem", i) in st.names: st = st.but(names=st.names - {i, ("elem", i)})
            c = s.cellof(i.ops[0])
            if c in st.cells: return [st.but(names=st.names | {i})]
            if i.ty.k == "ptr":
                for w, off, a in st.cells:
                    if w is c[0] and c[1] is None: return [st.but(names=st.names | {("elem", i)})]
                # a fixed element says nothing about a block kept at a varying index
                if c[0] in st.arr and c[1] is None: return [st.but(names=st.names | {("elem", i)})]
            return [st]
        if o == "store":
            s.use(st, i.ops[1], i, "written through")
            v, p = i.ops
            c = s.cellof(p)
            if v.ty.k == "ptr" and s.holds(st, v) == "yes":
                w = c[0]
                local = getattr(w, "kind", "") == "instr" and w.op == "alloca"
                st = st.but(cells=st.cells | {c})
                if not local: st = st.but(esc=True)
                if c[1] is None: st = st.but(arr=st.arr | {w})
            elif c in st.cells: st = st.but(cells=st.cells - {c})
            return [st]
        if o == "phi": return [st]      # done on the edge
        if o == "select" and i.ty.k == "ptr":
            r = []
            for truth, v in ((True, i.ops[1]), (False, i.ops[2])):
                x = s.refine(st, i.ops[0], truth)
                if x is None: continue
                x = x.but(names=(x.names - {i}) | ({i} if s.holds(x, v) == "yes" else set()))
                r.append(x)
            return list(dict.fromkeys(r))
        if o == "ret":
            held = i.ops and s.holds(st, i.ops[0]) == "yes"
            if held: s.returned = True
            if st.st in ("U", "ok") and not held and not st.esc and not st.arr and s.site.kind != "arg":
                s.flag("leak", i, "%s is not released on a path to this return" % s.site.what)
            if held and st.st == "freed": s.flag("use after release", i, "%s is returned after its release" % s.site.what)
            return []
        if o in ("call", "invoke"):
            n = callname(i)
            if n is None:
                for a in i.args: s.use(st, a, i, "passed on") if a.kind != "metadata" and a.ty.k == "ptr" else None
                return [st]
            if n.startswith(PURE): return [st]
            if n in NORETURN: return []
            rel = None
            if n == "free" or n in DELETE: rel = "heap"
            elif n in FILES.values(): rel = "file"
            elif n == "realloc" and s.site.ins is not i: rel = "heap"
            if rel:
                h = s.holds(st, i.args[0])
                if not h: return [st]
                if s.site.kind == "arg":
                    if h == "yes" and rel == "heap": s.flag("free of caller's", i, "releases %s, which the caller owns" % s.site.what)
                    return [st]
                w, off, _ = root(i.args[0])
                if off not in (0,) and h == "yes": s.flag("free", i, "releases an address inside %s" % s.site.what)
                want = "file" if s.site.kind == "file" else "heap"
                if rel != want or (rel == "file" and FILES[callname(s.site.ins)] != n): s.flag("free", i, "%s is released with %s" % (s.site.what, n))
                if rel == "heap" and h == "yes" and s.site.kind != "file":
                    a = callname(s.site.ins)
                    if (n in DELETE) != (a in NEW) or a in NEW and not n.startswith(NEW[a]): s.flag("free", i, "%s is released with %s" % (s.site.what, F_NAME.get(n, n)))
                s.released = True
                if h == "elem": return [st.but(st="freed-elem")]
                if st.st == "freed": s.flag("double release", i, "%s is released a second time" % s.site.what)
                if st.st in ("U", "null") and rel == "file": s.flag("unchecked", i, "%s may be missing where it is closed" % s.site.what)
                if st.st == "null": return [st]
                return [st.but(st="freed")]
            for a in i.args:
                if a.kind != "metadata" and a.ty.k == "ptr":
                    if n in ("printf", "fprintf", "puts", "perror") and s.site.kind != "file": continue
                    s.use(st, a, i, "passed to %s" % n)
                    if s.holds(st, a) == "yes" and hasattr(i.callee, "blocks") and i.callee.blocks: pass
            # a callee that receives the address of a local holder may overwrite it (posix_memalign of another site does)
            if n == "posix_memalign":
                c = s.cellof(i.args[0])
                if c in st.cells and i is not s.site.ins:
                    if st.st in ("U", "ok") and not st.esc and not st.arr and not st.names - {i} and s.site.kind != "arg":
                        s.flag("leak", i, "%s is overwritten before its release" % s.site.what)
                    st = st.but(cells=st.cells - {c})
            return [st]
        if o not in ("br", "switch", "unreachable", "gep", "icmp") and i.ty.k != "void" and i in st.names: st = st.but(names=st.names - {i})
        return [st]

    def edge(s, st, b, q):
        """phis of q on the edge b->q"""
        add, rem = set(), set()
        codes = set(st.codes)
        for i in q.ins:
            if i.op != "phi": break
            for v, pb in i.inc:
                if pb is b:
                    if i.ty.k == "ptr":
                        h = s.holds(st, v)
                        if h == "yes" and root(v)[1] == 0: add.add(i)
                        elif h == "yes" or h == "elem": add.add(("elem", i))
                        else: rem |= {i, ("elem", i)}
                    elif v in st.codes: codes.add(i)
        n = (st.names - rem) | add
        return st.but(names=frozenset(n), codes=frozenset(codes)) if n != st.names or codes != st.codes else st

    def run(s):
        b0 = s.fn.blocks[0]
        init = St()
        if s.site.kind == "arg": init = St("ok", frozenset([s.site.ins]))
        seen = {b0: {init}}
        work = [(b0, init)]
        while work:
            b, st = work.pop()
            s.visited += 1
            if s.visited > LIMIT:
                s.incomplete = True
                break
            cur = [st]
            for i in b.ins:
                cur = list(dict.fromkeys(x for y in cur for x in s.step(y, i)))
                if not cur: break
            t = b.ins[-1]
            for st in cur:
                for n, q in enumerate(t.succ):
                    x = st
                    if t.op == "br" and t.ops: x = s.refine(st, t.ops[0], q is t.succ[0]) if t.succ[0] is not t.succ[1] else st
                    elif t.op == "switch":
                        k = key(t.ops[0], s.lp)
                        if k is not None and ("sw", k) in s.corr:
                            val = ("case", t.idx[n - 1]) if n else ("other", tuple(t.idx))
                            x = s.swfact(st, ("sw", k), val)
                    if x is None: continue
                    x = s.edge(x, b, q)
                    x = s.prune(x, q)
                    if x not in seen.setdefault(q, set()):
                        seen[q].add(x)
                        work.append((q, x))
        return s

    def prune(s, st, q):
        """forget before the site was reached: only facts matter"""
        return st

    def swfact(s, st, k, val):
        for q, v in st.facts:
            if q == k:
                if v == val: return st
                if v[0] == "case" and val[0] == "case": return None
                if v[0] == "case" and val[0] == "other": return None if v[1] in val[1] else st
                if v[0] == "other" and val[0] == "case" and val[1] in v[1]: return None
                return st
        return st.but(facts=st.facts | {(k, val)})


def correlated(fn, lp):
    """conditions that occur on more than one branch of the function"""
    cnt = {}
    for b in fn.blocks:
        t = b.ins[-1]
        if t.op == "br" and t.ops:
            for k in leaves(t.ops[0], lp): cnt[k] = cnt.get(k, 0) + 1
        elif t.op == "switch":
            k = key(t.ops[0], lp)
            if k is not None: cnt[("sw", k)] = cnt.get(("sw", k), 0) + 1
        for i in b.ins:
            if i.op == "select":
                for k in leaves(i.ops[0], lp): cnt[k] = cnt.get(k, 0) + 1
    return {k for k, n in cnt.items() if n > 1}


def leaves(c, lp):
    r = []
    st = [c]
    while st:
        x = st.pop()
        k = key(x, lp)
        if k is not None: r.append(canon(k)[0])
        if getattr(x, "kind", "") == "instr" and x.op in ("and", "or", "xor", "select", "zext", "trunc") : st += [y for y in x.ops if getattr(y, "kind", "") == "instr"]
    return r


def relevant(fn, site, corr, lp):
    """facts worth keeping: conditions one of whose branches decides between acquiring / releasing / returning differently.
    All correlated conditions outside loops are kept when few; otherwise those that dominate-or-guard a call on the resource."""
    if len(corr) <= 6: return corr
    d = U.Dom(fn)
    want = set()
    names = {"free", "pclose", "fclose"} | DELETE
    blocks = [b for b, i in U.instrs(fn) if i.op == "call" and (i is site.ins or callname(i) in names)]
    for b in fn.blocks:
        t = b.ins[-1]
        if not (t.op in ("br", "switch") and t.ops): continue
        for x in blocks:
            if any(len(q.pred) == 1 and d.dom(q, x) for q in t.succ):
                if t.op == "br": want |= set(leaves(t.ops[0], lp))
                else:
                    k = key(t.ops[0], lp)
                    if k is not None: want.add(("sw", k))
    # conditions that choose between pointers
    for b, i in U.instrs(fn):
        if i.ty.k != "ptr": continue
        if i.op == "select": want |= set(leaves(i.ops[0], lp))
        elif i.op == "phi" and lp.inner.get(b) is None and b in d.idom:
            t = d.idom[b].ins[-1]
            if t.op == "br" and t.ops: want |= set(leaves(t.ops[0], lp))
    return corr & want


def sites(fn):
    r = []
    for b, i in U.instrs(fn):
        if i.op != "call": continue
        n = callname(i)
        w = loc(i).split(" ")[0]
        if n in HEAP: r.append(Site("heap", i, "the block from %s at %s" % (n, w)))
        elif n == "posix_memalign": r.append(Site("memalign", i, "the block from %s at %s" % (n, w)))
        elif n in FILES: r.append(Site("file", i, "the stream from %s at %s" % (n, w)))
    return r


_res = None


def analyse():
    """[(function, site, Analysis)] for every acquisition site of every function, and every pointer parameter"""
    global _res
    if _res is not None: return _res
    mod, fs = program()
    _res = []
    for f in fs:
        lp = Loops(f)
        corr = correlated(f, lp)
        ss = sites(f)
        if any(i.op == "call" and (callname(i) in ("free", "realloc") or callname(i) in DELETE) for b, i in U.instrs(f)):
            ss += [Site("arg", a, "the caller's %s" % a.name) for a in f.args if a.ty.k == "ptr"]
        for s in ss:
            _res.append((f, s, Analysis(f, s, lp, relevant(f, s, corr, lp)).run()))
    return _res


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(100000)
    import time
    t0 = time.time()
    mod, fs = program()
    print("program", time.time() - t0, len(fs))
    for f, s, a in analyse():
        print("%-28s %-50s states %5d chk %d rel %d ret %d arr" % (U.name(f), s.what, a.visited, a.checked, a.released, a.returned))
        for r, i, t in a.bad: print("    BAD", r, loc(i), t)
    print(time.time() - t0)
