"""C08 and C10: heap blocks, contexts and pipes."""
import typestate as T, interp as N, units as U, frontend as F
from interp import loc
from frontend import Broken


def c10(rep):
    rep.technique = "path-sensitive typestate of every allocation result: tested against failure before any use"
    seen = {}
    for f, s, a in T.analyse():
        if s.kind not in ("heap", "memalign"): continue
        w = loc(s.ins).split(" ")[0]
        bad = [b for b in a.bad if b[0] == "unchecked"]
        if w not in seen: rep.count("allocation sites")
        seen.setdefault(w, [])
        rep.count("site instances (inlined contexts)")
        rep.count("path states", a.visited)
        if a.incomplete: rep.undec("typestate", "%s in %s: too many path states" % (s.what, U.name(f)))
        for rule, i, text in bad:
            if w not in [x for x, _ in seen[w]] or True:
                rep.violation("unchecked allocation", w, "%s: %s (%s)" % (U.name(f), text, loc(i).split(" ")[0]), key=w)
        if not bad and not a.incomplete: rep.ok("allocation result tested before use", "%s in %s" % (s.what, U.name(f)))
    dedupe(rep)
    rep.need("allocation sites", 4)


def dedupe(rep):
    """one report per construct"""
    seen, out = set(), []
    for v in rep.viol:
        k = (v["rule"], v["where"])
        if k in seen: continue
        seen.add(k)
        out.append(v)
    rep.viol = out


RULES = {"leak", "double release", "use after release", "free", "free of caller's"}


def c08(rep):
    import drv
    seen = set()
    for f, s, a in T.analyse():
        w = loc(s.ins).split(" ")[0] if s.kind != "arg" else "%s(%s)" % (U.name(f), s.ins.name)
        rep.count("caller-owned pointers" if s.kind == "arg" else "acquisition instances")
        if s.kind != "arg" and w not in seen:
            seen.add(w)
            rep.count("acquisition sites")
        rep.count("path states", a.visited)
        if a.incomplete: rep.undec("typestate", "%s in %s: too many path states" % (s.what, U.name(f)))
        n = 0
        for rule, i, text in a.bad:
            if rule not in RULES: continue
            n += 1
            rep.violation(rule, w if rule == "leak" else loc(i).split(" ")[0], "%s: %s (%s)" % (U.name(f), text, loc(i).split(" ")[0]))
        arr = arrays(f, s, rep)
        if arr:
            n += 1
            rep.violation("leak", w, "%s: %s" % (U.name(f), arr))
        if not n and not a.incomplete: rep.ok("released exactly once on every path" if s.kind != "arg" else "caller's memory is never released", "%s in %s" % (s.what, U.name(f)))
    dedupe(rep)
    rep.need("acquisition sites", 6)
    rep.need("caller-owned pointers", 8)
    drv.decide(rep, "C08")
    dedupe(rep)
    rep.technique = "path-sensitive typestate of every acquisition site in every function; allocation/release relations of the driver summaries"


def arrays(f, s, rep):
    """blocks kept in an array of pointers: a loop that releases them follows on every path, over the same indices"""
    if s.kind == "arg": return None
    lp = T.Loops(f)
    L = lp.inner.get(s.ins.bb)
    roots = set()
    if s.kind == "memalign":
        w, off, _ = T.root(s.ins.args[0])
        if off is None: roots.add(w)
    else:
        for b, i in U.instrs(f):
            if i.op == "store" and i.ops[0] is s.ins:
                w, off, _ = T.root(i.ops[1])
                if off is None: roots.add(w)
    roots = {r for r in roots if getattr(r, "op", "") == "alloca"}
    if not roots: return None
    rep.count("arrays of owned blocks")
    frees = []
    for b, i in U.instrs(f):
        if i.op == "call" and (T.callname(i) == "free" or T.callname(i) in T.DELETE):
            v = i.args[0]
            if getattr(v, "op", "") == "load" and T.root(v.ops[0])[0] in roots: frees.append((b, i))
    if not frees: return "%s is stored in an array whose elements are never released" % s.what
    heads = set()
    d = U.Dom(f)
    ok = []
    for b, i in frees:
        l = lp.inner.get(b)
        if l is None: continue
        if not all(d.dom(b, x) for x in l.latches):
            rep.undec("array release", "%s: conditional release at %s" % (U.name(f), loc(i).split(" ")[0]))
            continue
        ok.append(l)
        while l is not None:
            heads.add(l.head)
            l = l.parent
    if not ok: return None
    # every path from the allocation to a return passes a releasing loop
    start = s.ins.bb
    st, seen = list(start.succ), set()
    while st:
        b = st.pop()
        if b in seen or b in heads: continue
        seen.add(b)
        t = b.ins[-1]
        if t.op == "ret": return "%s is stored in an array that is not released on a path to the return" % s.what
        st += b.succ
    if L is not None:
        k = bound(L, lp)
        ks = [bound(l, lp) for l in ok]
        if k is not None and k in ks: rep.ok("array released over the indices it was filled for", "%s in %s" % (s.what, U.name(f)))
        else: rep.undec("array released over the indices it was filled for", "%s in %s: %s / %s" % (s.what, U.name(f), k, ks))
    return None


def bound(L, lp):
    """(start, step, limit) of a counted loop over values fixed for the call"""
    t = L.head.ins[-1]
    if t.op != "br" or not t.ops or getattr(t.ops[0], "op", "") != "icmp": return None
    c = t.ops[0]
    a, b = c.ops
    if getattr(a, "op", "") != "phi" or a.bb is not L.head: return None
    start = step = None
    for v, pb in a.inc:
        if pb in L.blocks:
            if getattr(v, "op", "") == "add" and v.ops[0] is a: step = T.key(v.ops[1], lp)
        else: start = T.key(v, lp)
    return (start, step, c.pred, key2(b, lp))


def key2(v, lp, d=0):
    """like key, but loads of a field are named by their address"""
    if getattr(v, "op", "") in ("sext", "zext", "trunc"): return key2(v.ops[0], lp, d)
    if getattr(v, "op", "") == "load":
        w, off, _ = T.root(v.ops[0])
        return ("ld", getattr(w, "n", getattr(w, "name", None)), off)
    if getattr(v, "op", "") in ("mul", "add", "sub") and d < 6: return (v.op,) + tuple(key2(x, lp, d + 1) for x in v.ops)
    return T.key(v, lp)
