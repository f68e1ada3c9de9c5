"""Value of a closed-form expression at one assignment of its atoms."""
from expr import *
from inst import sdiv, scdiv, sfdiv, ftoi, ffn, Opaque


class Eval:
    def __init__(s, env):
        s.env = env            # Atom or symbol name -> number
        s.memo = {}

    def poly(s, P):
        t = 0
        for m, c in P.t.items():
            x = c
            for a, e in m:
                x = x * s.atom(a) ** e
                if x == 0: break
            t += x
        return t

    def atom(s, a):
        if a in s.memo: return s.memo[a]
        v = s._atom(a)
        s.memo[a] = v
        return v

    def _atom(s, a):
        if a in s.env: return s.env[a]
        k = a.kind
        if k == "sym" and a.args[0] in s.env: return s.env[a.args[0]]
        if k == "fc": return float(a.args[0])
        if k == "div": return sdiv(s.poly(a.args[0]), s.poly(a.args[1]))
        if k == "cdiv": return scdiv(s.poly(a.args[0]), s.poly(a.args[1]))
        if k == "fdiv": return sfdiv(s.poly(a.args[0]), s.poly(a.args[1]))
        if k == "ftoi": return ftoi(s.poly(a.args[0]))
        if k == "fn": return ffn(a.args[0], *[s.poly(x) for x in a.args[1:]])
        if k == "max0": return max(0, s.poly(a.args[0]))
        if k == "ite": return s.poly(a.args[1]) if s.bdd(a.args[0]) else s.poly(a.args[2])
        if k in ("sum", "find"):
            lv, U, B = a.args
            u = s.poly(U)
            if k == "sum":
                return sum(Eval({**s.env, lv: i}).poly(B) for i in range(u))
            return next((i for i in range(u) if Eval({**s.env, lv: i}).bdd(B)), max(0, u))
        raise Opaque(repr(a)[:80])

    def cmp(s, c):
        if c in s.env: return s.env[c]
        if c.op == "ge0": return s.poly(c.p) >= 0
        if c.op == "eq0": return s.poly(c.p) == 0
        if c.op in ("fgt", "fge", "flt", "fle"):
            a, b = s.poly(c.p[0]), s.poly(c.p[1])
            return {"fgt": a > b, "fge": a >= b, "flt": a < b, "fle": a <= b}[c.op]
        raise Opaque("condition %r" % (c,))

    def bdd(s, b):
        while b.v is not None: b = b.hi if s.cmp(b.v) else b.lo
        return b is TRUE


def free_atoms(xs):
    """atoms an assignment has to give a value to"""
    r = set()
    for x in xs:
        for a in all_atoms(x):
            if a.kind in ("sym", "unk", "ld", "op", "ph"): r.add(a)
    return r
