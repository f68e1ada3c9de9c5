"""Decision rules for integer inequalities between symbolic terms.

ge(P): is P >= 0 for all values of the symbols admitted by the context?  A positive answer is backed by an
exact certificate  P = sum lambda_i * F_i  (lambda_i >= 0 rational, F_i products of known non-negative facts);
the floating point LP only proposes the multipliers, they are re-checked with exact fractions.
"""
from fractions import Fraction
import itertools
from expr import *

try:
    import numpy as np
    from scipy.optimize import linprog
    from scipy.sparse import csr_matrix
except ImportError:                                     # pragma: no cover
    np = None


class NeedSplit(Exception):
    def __init__(s, cond): s.cond = cond


class Ctx:
    """facts (>= 0) and equations (== 0) that hold"""
    STAT = {"queries": 0, "lp": 0, "proved": 0}

    def __init__(s, facts=(), eqs=(), lvs=None, parent=None):
        s.facts = tuple(facts)
        s.eqs = tuple(eqs)
        s.memo = {}
        s.nmemo = {}
        s.bmemo = {}
        s.busy = set()
        s._bad = None
        s.pos = {}
        for f in s.facts:              # sign knowledge of single atoms
            if len([m for m in f.t if m != ()]) == 1:
                (m, c), = [(m, c) for m, c in f.t.items() if m != ()]
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    s.pos[m[0][0]] = max(s.pos.get(m[0][0], -10 ** 9), -f.t.get((), 0))

    def add(s, facts=(), eqs=()):
        fs = [f for f in facts if f not in s.facts]
        es = [f for f in eqs if f not in s.eqs]
        if not fs and not es: return s
        return Ctx(s.facts + tuple(fs), s.eqs + tuple(es))

    def assume(s, b):
        """context with the condition b (conjunction of literals; disjunctions are ignored)"""
        fs, es = [], []
        r = b
        while r.v is not None:
            if r.lo is FALSE: lit(r.v, True, fs, es, s); r = r.hi
            elif r.hi is FALSE: lit(r.v, False, fs, es, s); r = r.lo
            else: break
        if r is FALSE: fs.append(poly(-1))
        return s.add(fs, es)

    # ------------------------------------------------------------ inequality
    def lower(s, a):
        """cheap constant lower bound of an atom or None"""
        v = s.pos.get(a)
        if v is not None: return v
        if a.kind in ("max0",): return 0
        return None

    def quick(s, P):
        """all monomials non-negative by sign of atoms"""
        tot = 0
        for m, c in P.t.items():
            if m == ():
                tot += c
                continue
            if c < 0: return False
            lo = 1
            for a, e in m:
                l = s.lower(a)
                if l is None or l < 0: return False
                lo *= l ** e
            tot += c * lo
        return tot >= 0

    def bad(s):
        """contradictory context?"""
        if s._bad is None:
            s._bad = False
            s._bad = bool(s.facts or s.eqs) and s.ge(poly(-1))
        return s._bad

    def ge(s, P):
        P = poly(P)
        c = P.const()
        if c is not None and c >= 0: return True
        r = s.memo.get(P.id)
        if r is not None: return r
        if P.id in s.busy: return False
        s.STAT["queries"] += 1
        if s.quick(P):
            s.memo[P.id] = True
            return True
        s.busy.add(P.id)
        try:
            Q = s.norm(P) if c is None else P
            r = s.quick(Q) or s.lp(Q)
        finally:
            s.busy.discard(P.id)
        s.memo[P.id] = r
        if r: s.STAT["proved"] += 1
        return r

    def eq(s, P, Q=0):
        D = poly(P) - poly(Q)
        if not D.t: return True
        D = s.norm(D)
        if not D.t: return True
        if D.const() is not None: return False
        return s.ge(D) and s.ge(-D)

    def atom_facts(s, a):
        """facts that define an atom"""
        out = []
        if a.kind == "div":
            n, d = a.args
            if s.ge(n) and s.ge(d - 1):
                q = poly(a)
                out += [q, n - d * q, d * q + d - 1 - n]
        elif a.kind == "cdiv":
            n, d = a.args
            if s.ge(d - 1):
                q = poly(a)
                out += [d * q - n, n + d - 1 - d * q]
                if s.ge(n): out.append(q)
                if s.ge(n - 1): out.append(q - 1)
        elif a.kind == "max0":
            out += [poly(a), poly(a) - a.args[0]]
        elif a.kind == "find":
            out.append(poly(a))
            if s.ge(a.args[1]): out.append(a.args[1] - a)
        elif a.kind == "sum":
            lv, U, B = a.args
            if s.add([poly(lv), U - 1 - lv]).ge(B): out.append(poly(a))
        elif a.kind == "ite":
            c, x, y = a.args
            lo = []
            cx, cy = s.assume(c), s.assume(bnot(c))
            if x.const() is not None and y.const() is not None:
                out += [poly(a) - min(x.const(), y.const()), poly(max(x.const(), y.const())) - a]
            elif cx.ge(x) and cy.ge(y): out.append(poly(a))
        return out

    def closure(s, P, depth=3):
        atoms = set(P.atoms())
        facts, eqs = [], []
        seenf = set()
        done = set()
        for _ in range(depth):
            n0 = len(atoms), len(facts)
            for f in s.facts:
                if f.id not in seenf and (f.atoms() & atoms or not f.atoms()):
                    seenf.add(f.id); facts.append(f); atoms |= f.atoms()
            for f in s.eqs:
                if f.id not in seenf and f.atoms() & atoms:
                    seenf.add(f.id); eqs.append(f); atoms |= f.atoms()
            for a in list(atoms):
                if a in done: continue
                done.add(a)
                for f in s.atom_facts(a):
                    if f.id not in seenf:
                        seenf.add(f.id); facts.append(f); atoms |= f.atoms()
            if (len(atoms), len(facts)) == n0: break
        return facts, eqs, atoms

    def lp(s, P):
        depth = 2
        facts, eqs, atoms = s.closure(P, depth)
        if P.const() is not None:
            facts, eqs = list(s.facts), list(s.eqs)
            atoms = set()
            for f in facts + eqs: atoms |= f.atoms()
            for a in list(atoms): facts += s.atom_facts(a)
        if certify(P, facts, eqs): return True
        # multiply facts with facts, favouring products that share monomials with the goal
        prods = products(P, facts, eqs)
        if prods is None: return False
        f2, e2 = prods
        return certify(P, facts + f2, eqs + e2)

    # ------------------------------------------------------------ normal form under the context
    def norm(s, P):
        P = poly(P)
        r = s.nmemo.get(P.id)
        if r is not None: return r
        s.nmemo[P.id] = P
        mp = {}
        for a in P.atoms():
            v = s.natom(a)
            if v is not None and v is not poly(a): mp[a] = v
        Q = Subst1(mp, P) if mp else P
        if Q is not P: Q = s.norm(Q)
        s.nmemo[P.id] = Q
        return Q

    def natom(s, a):
        k = a.kind
        if k == "max0":
            x = s.norm(a.args[0])
            if s.ge(x): return x
            if s.ge(-x): return ZERO
            return max0(x)
        if k == "ite":
            c = s.decide(a.args[0])
            if c is TRUE: return s.norm(a.args[1])
            if c is FALSE: return s.norm(a.args[2])
            return ite(c, s.assume(c).norm(a.args[1]), s.assume(bnot(c)).norm(a.args[2]))
        if k == "div":
            n, d = s.norm(a.args[0]), s.norm(a.args[1])
            return s.ndiv(n, d)
        if k == "cdiv":
            n, d = s.norm(a.args[0]), s.norm(a.args[1])
            S, R = split_multiple(n, d)
            if S.t and s.ge(d - 1): return S + s.ncdiv(R, d)
            return s.ncdiv(n, d)
        if k == "sum":
            lv, U, B = a.args
            U2 = s.norm(U)
            B2 = s.add([poly(lv), U2 - 1 - lv]).norm(B)
            r = ssum(lv, U2, B2)
            return r
        return None

    def ndiv(s, n, d):
        q = div(n, d)
        if not (len(q.t) == 1 and len(q.atoms()) == 1): return q
        if s.ge(d - 1):
            S, R = split_multiple(n, d)
            if S.t and s.ge(n) and s.ge(R): return S + s.ndiv(R, d)
            if s.ge(n):
                if s.ge(d - 1 - n): return ZERO
                # n = d*S + R0 with 0 <= R0 < d where a linear guess works
                for g in s.guess(n, d):
                    if s.ge(n - d * g) and s.ge(d * g + d - 1 - n): return g
        return q

    def guess(s, n, d):
        return [poly(1)]

    def ncdiv(s, n, d):
        q = cdiv(n, d)
        if not (len(q.t) == 1 and len(q.atoms()) == 1): return q
        if s.ge(d - 1):
            if s.ge(-n) and s.ge(n + d - 1): return ZERO
            if s.ge(n - 1) and s.ge(d - n): return ONE
        return q

    # ------------------------------------------------------------ conditions
    def decide(s, b):
        if b.v is None: return b
        r = s.bmemo.get(b.id)
        if r is not None: return r
        s.bmemo[b.id] = b
        v = s.dlit(b.v)
        if v is True: r = s.decide(b.hi)
        elif v is False: r = s.decide(b.lo)
        else:
            hi = s.assume(bvar(b.v)).decide(b.hi) if b.hi.v is not None else b.hi
            lo = s.assume(bnot(bvar(b.v))).decide(b.lo) if b.lo.v is not None else b.lo
            r = bite(s.ncmp(b.v), hi, lo)
        s.bmemo[b.id] = r
        return r

    def ncmp(s, c):
        if c.op == "ge0": return ge0(s.norm(c.p))
        if c.op == "eq0": return eq0(s.norm(c.p))
        return bvar(c)

    def dlit(s, c):
        if c.op == "ge0":
            if s.ge(c.p): return True
            if s.ge(-c.p - 1): return False
        elif c.op == "eq0":
            P = s.norm(c.p)
            if not P.t: return True
            if s.ge(P - 1) or s.ge(-P - 1): return False
            if s.ge(P) and s.ge(-P): return True
        return None

    def implies(s, b):
        return s.decide(b) is TRUE


def lit(c, val, fs, es, ctx=None):
    if c.op == "ge0":
        fs.append(c.p if val else -c.p - 1)
    elif c.op == "eq0":
        if val: es.append(c.p)
        else:
            # x != 0 with a known sign
            if ctx is not None:
                if ctx.ge(c.p): fs.append(c.p - 1)
                elif ctx.ge(-c.p): fs.append(-c.p - 1)


def Subst1(mp, P):
    r = ZERO
    for m, c in P.t.items():
        q = poly(c)
        for a, e in m:
            b = mp.get(a)
            b = poly(a) if b is None else b
            for _ in range(e): q = q * b
        r = r + q
    return r


def products(P, facts, eqs, limit=900):
    """candidate products of two facts"""
    if len(facts) > 60: facts = facts[:60]
    goal = set(P.t)
    deg = max([sum(e for _, e in m) for m in P.t] or [0])
    single = [f for f in facts if len(f.t) <= 4]
    out = []
    for i, f in enumerate(facts):
        for g in facts[i:]:
            h = f * g
            if len(h.t) <= 16:
                if max(sum(e for _, e in m) for m in h.t) <= max(deg, 2) + 1: out.append(h)
        if len(out) > limit: break
    eo = []
    mult = set()
    for m in goal:
        for a, e in m: mult.add(poly(a))
    for f in facts:
        for a in f.atoms(): mult.add(poly(a))
    for e in eqs:
        for m in list(mult)[:40]: eo.append(e * m)
    return out, eo


def certify(P, facts, eqs):
    """P = l0 + sum li*Fi + sum mj*Ej with li >= 0 ?"""
    Ctx.STAT["lp"] += 1
    if np is None: return False
    monos = {}
    cols = [ONE] + list(facts)
    ncol = len(cols)
    rows, cidx, vals = [], [], []
    allp = cols + list(eqs)
    # drop columns with monomials that can never cancel (appear with one sign only and not in P)
    for j, f in enumerate(allp):
        for m, c in f.t.items():
            r = monos.setdefault(m, len(monos))
            rows.append(r); cidx.append(j); vals.append(float(c))
    for m in P.t:
        if m not in monos: return False
    b = np.zeros(len(monos))
    for m, c in P.t.items(): b[monos[m]] = float(c)
    A = csr_matrix((vals, (rows, cidx)), shape=(len(monos), len(allp)))
    cost = np.array([1.0] * ncol + [0.0] * len(eqs))
    r = linprog(cost, A_eq=A, b_eq=b, bounds=[(0, None)] * ncol + [(None, None)] * len(eqs), method="highs")
    if r.status != 0: return False
    sup = [j for j in range(len(allp)) if abs(r.x[j]) > 1e-9]
    lam = {j: Fraction(r.x[j]).limit_denominator(5000) for j in sup}
    if check(P, allp, lam, ncol): return True
    lam = solve_exact(P, [allp[j] for j in sup])
    if lam is None: return False
    return check(P, allp, dict(zip(sup, lam)), ncol)


def check(P, cols, lam, ncol):
    acc = {}
    for j, l in lam.items():
        if j < ncol and l < 0: return False
        for m, c in cols[j].t.items(): acc[m] = acc.get(m, 0) + l * c
    for m, c in P.t.items(): acc[m] = acc.get(m, 0) - c
    return all(v == 0 for v in acc.values())


def solve_exact(P, cols):
    monos = sorted({m for f in cols for m in f.t} | set(P.t), key=str)
    M = [[Fraction(f.t.get(m, 0)) for f in cols] + [Fraction(P.t.get(m, 0))] for m in monos]
    n = len(cols)
    piv, row = [], 0
    for c in range(n):
        k = next((i for i in range(row, len(M)) if M[i][c]), None)
        if k is None: continue
        M[row], M[k] = M[k], M[row]
        d = M[row][c]
        M[row] = [x / d for x in M[row]]
        for i in range(len(M)):
            if i != row and M[i][c]:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[row])]
        piv.append(c); row += 1
    if any(M[i][n] for i in range(row, len(M))): return None
    x = [Fraction(0)] * n
    for i, c in enumerate(piv): x[c] = M[i][n]
    return x
