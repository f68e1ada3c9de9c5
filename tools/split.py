"""Inequalities over terms with conditional parts: split on the conditions, prove each case."""
from expr import *
from prover import Ctx


def first_ite(x, ctx=None):
    """a condition some ite inside x depends on, outermost first"""
    st, seen = [x], set()
    while st:
        y = st.pop(0)
        if isinstance(y, Poly):
            for a in sorted(y.atoms(), key=lambda a: a.id):
                if a.id in seen: continue
                seen.add(a.id)
                if a.kind == "ite" and a.args[0].v is not None: return a.args[0].v
                if a.kind not in ("sum", "find", "ld"): st.extend(z for z in a.args if isinstance(z, Poly))
    return None


def set_lit(x, c, val):
    """x under the assumption that literal c is val"""
    if isinstance(x, BDD): return cof(x, c, val)
    return under_lit(x, c, val)


def under_lit(P, c, val):
    mp = {}
    for a in P.atoms():
        b = atom_lit(a, c, val)
        if b is not None: mp[a] = b
    if not mp: return P
    r = ZERO
    for m, k in P.t.items():
        t = poly(k)
        for a, e in m:
            for _ in range(e): t = t * mp.get(a, poly(a))
        r = r + t
    return r


def atom_lit(a, c, val):
    k = a.kind
    if k == "ite":
        b = cof(a.args[0], c, val)
        x, y = under_lit(a.args[1], c, val), under_lit(a.args[2], c, val)
        if b is a.args[0] and x is a.args[1] and y is a.args[2]: return None
        return ite(b, x, y)
    if k in ("div", "cdiv", "max0", "fdiv", "ftoi", "fn"):
        n = [under_lit(x, c, val) if isinstance(x, Poly) else x for x in a.args]
        if all(p is q for p, q in zip(n, a.args)): return None
        if k == "div": return div(*n)
        if k == "cdiv": return cdiv(*n)
        if k == "max0": return max0(*n)
        return poly(Atom(k, *n))
    return None


def prove_ge(ctx, P, guard=TRUE, depth=14):
    """guard => P >= 0 ?"""
    if guard is FALSE: return True
    lits = []
    g = guard
    while g.v is not None and (g.lo is FALSE or g.hi is FALSE):
        t = g.lo is FALSE
        lits.append((g.v, t))
        g = g.hi if t else g.lo
    if g is FALSE: return True
    for c, t in lits:
        P = under_lit(P, c, t)
        b = bvar(c) if t else bnot(bvar(c))
        if c.op in ("ge0", "eq0"): ctx = ctx.assume(b)
    if lits and ctx.bad(): return True
    if ctx.ge(P): return True
    if depth == 0: return False
    c = g.v if g.v is not None else first_ite(P)
    if c is None: return False
    for t in (True, False):
        b = bvar(c) if t else bnot(bvar(c))
        x = ctx.assume(b) if c.op in ("ge0", "eq0") else ctx
        if x is not ctx and x.bad(): continue
        if not prove_ge(x, under_lit(P, c, t), cof(g, c, t), depth - 1): return False
    return True
