"""Hash-consed symbolic values.

Poly  : polynomial with integer coefficients over Atoms (mathematical integers)
Atom  : symbol, loop index, C division, ceiling division, if-then-else, finite sum, max(0,.), opaque
Bool  : reduced ordered BDD over comparison atoms  (P >= 0, P == 0, opaque)
Ptr   : (object, index polynomials of the object family, byte offset)
FE    : opaque float expression tree
"""
import itertools, os

_ids = itertools.count(1)
SALT = int(os.environ.get("VERIF_SALT", "0"))


def mix(n):
    """hash of the n-th object: set orders are the same on every run (VERIF_SALT: another order, for testing)"""
    return (n * 2654435761 + SALT * (n ^ 0x5bd1e995) * 40503) & 0x7fffffff if SALT else n


# ---------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "args", "id", "_lv", "depth")
    tab = {}
    def __hash__(s): return mix(s.id)

    def __new__(cls, kind, *args):
        k = (kind,) + args
        a = cls.tab.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.id = kind, args, next(_ids)
            a._lv = None
            a.depth = 1 + max([getattr(x, "depth", 0) for x in args] or [0])
            cls.tab[k] = a
        return a

    def __repr__(s):
        k, a = s.kind, s.args
        if k in ("sym", "unk"): return str(a[0])
        if k in ("lv", "ph"): return "%s" % (a[0],)
        if k == "div": return "(%r)/(%r)" % a
        if k == "cdiv": return "ceil((%r)/(%r))" % a
        if k == "ite": return "[%r ? %r : %r]" % a
        if k == "sum": return "Sum(%r<%r: %r)" % a
        if k == "find": return "First(%r<%r: %r)" % a
        if k == "max0": return "max0(%r)" % a
        return "%s%r" % (k, a)

    def __lt__(s, o):
        return s.id < o.id


# ----------------------------------------------------------------------------------------- poly
class Poly:
    __slots__ = ("t", "id", "depth", "_at")
    tab = {}
    def __hash__(s): return mix(s.id)

    def __new__(cls, terms):
        k = frozenset(terms.items())
        p = cls.tab.get(k)
        if p is None:
            p = object.__new__(cls)
            p.t = terms
            p.id = next(_ids)
            p.depth = max([a.depth for m in terms for a, _ in m] or [0])
            p._at = None
            cls.tab[k] = p
        return p

    def atoms(s):
        if s._at is None:
            s._at = frozenset(a for m in s.t for a, _ in m)
        return s._at

    def const(s):
        """int value if constant else None"""
        if not s.t:
            return 0
        if len(s.t) == 1 and () in s.t:
            return s.t[()]
        return None

    def __add__(s, o):
        o = poly(o)
        if not o.t: return s
        if not s.t: return o
        r = dict(s.t)
        for m, c in o.t.items():
            c += r.get(m, 0)
            if c: r[m] = c
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(s):
        return Poly({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        return s + (-poly(o))

    def __rsub__(s, o):
        return poly(o) - s

    def __mul__(s, o):
        o = poly(o)
        if not s.t or not o.t: return ZERO
        if s is ONE: return o
        if o is ONE: return s
        r = {}
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                c = r.get(m, 0) + c1 * c2
                if c: r[m] = c
                else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__

    def __repr__(s):
        if not s.t: return "0"
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: (-len(x[0]), [a.id for a, _ in x[0]])):
            f = "*".join(("%r" % a) + ("^%d" % e if e > 1 else "") for a, e in m)
            if not f: out.append("%+d" % c)
            elif c == 1: out.append("+" + f)
            elif c == -1: out.append("-" + f)
            else: out.append("%+d*%s" % (c, f))
        r = " ".join(out)
        return r[1:] if r[0] == "+" else r


def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=lambda z: z[0].id))


def poly(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x, 1),): 1})
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return Poly({(): x} if x else {})
    raise TypeError(x)


ZERO, ONE = Poly({}), Poly({(): 1})


def sym(n): return poly(Atom("sym", n))


def exact_div(P, Q):
    """P/Q if Q divides P exactly as polynomials, else None"""
    P, Q = poly(P), poly(Q)
    c = Q.const()
    if c is not None:
        if c == 0: return None
        if all(v % c == 0 for v in P.t.values()):
            return Poly({m: v // c for m, v in P.t.items()})
        return None
    if not P.t: return ZERO
    # multivariate division with a fixed monomial order
    key = lambda m: (sum(e for _, e in m), tuple((-a.id, e) for a, e in m))
    lq = max(Q.t, key=key)
    R, S = P, ZERO
    for _ in range(60):
        if not R.t: return S
        hit = None
        lr = max(R.t, key=key)
        d = mdiv(lr, lq)
        if d is None or R.t[lr] % Q.t[lq]:
            return None
        q = Poly({d: R.t[lr] // Q.t[lq]})
        S, R = S + q, R - q * Q
    return None


def mdiv(a, b):
    d = dict(a)
    for x, e in b:
        if d.get(x, 0) < e: return None
        d[x] -= e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].id))


def split_multiple(P, Q):
    """P = Q*S + R with every monomial divisible by Q moved into S (Q a single monomial)"""
    if len(Q.t) != 1: return ZERO, P
    (mq, cq), = Q.t.items()
    S, R = {}, {}
    for m, c in P.t.items():
        d = mdiv(m, mq)
        if d is not None and c % cq == 0: S[d] = c // cq
        else: R[m] = c
    return Poly(S), Poly(R)


def div(P, Q):
    """C integer division (truncation)"""
    P, Q = poly(P), poly(Q)
    cp, cq = P.const(), Q.const()
    if cq is not None and cp is not None and cq:
        r = abs(cp) // abs(cq)
        return poly(r if (cp < 0) == (cq < 0) else -r)
    e = exact_div(P, Q)
    if e is not None: return e
    if P.t and all(c < 0 for c in P.t.values()):
        return -div(-P, Q)
    return poly(Atom("div", P, Q))


def rem(P, Q):
    P, Q = poly(P), poly(Q)
    return P - Q * div(P, Q)


def cdiv(P, Q):
    P, Q = poly(P), poly(Q)
    cp, cq = P.const(), Q.const()
    if cq is not None and cp is not None and cq:
        return poly(-((-cp) // cq))
    e = exact_div(P, Q)
    if e is not None: return e
    return poly(Atom("cdiv", P, Q))


def ite(c, P, Q):
    P, Q = poly(P), poly(Q)
    if c is TRUE: return P
    if c is FALSE: return Q
    if P is Q: return P
    com = {m: v for m, v in P.t.items() if Q.t.get(m) == v}
    if com:
        k = Poly(com)
        return k + ite(c, P - k, Q - k)
    # strip a redundant nested test
    P, Q = under(P, c, True), under(Q, c, False)
    if P is Q: return P
    return poly(Atom("ite", c, P, Q))


def under(P, c, val):
    a = P.atoms()
    if len(P.t) == 1 and len(a) == 1:
        at = next(iter(a))
        if at.kind == "ite" and P.t == {((at, 1),): 1}:
            if val:
                r = restrict(at.args[0], c)
            else:
                r = restrict(at.args[0], bnot(c))
            if r is TRUE: return at.args[1]
            if r is FALSE: return at.args[2]
    return P


def max0(P):
    P = poly(P)
    c = P.const()
    if c is not None: return poly(max(c, 0))
    return poly(Atom("max0", P))


def ssum(lv, U, P):
    """sum of P for lv = 0 .. U-1   (0 if U <= 0)"""
    P, U = poly(P), poly(U)
    if not P.t: return ZERO
    if U.const() is not None and U.const() <= 0: return ZERO
    free, dep = {}, {}
    for m, c in P.t.items():
        if any(contains(a, lv) for a, _ in m): dep[m] = c
        else: free[m] = c
    r = ZERO
    if free: r = r + Poly(free) * max0(U)
    if dep: r = r + poly(Atom("sum", lv, U, Poly(dep)))
    return r


def find(lv, U, C):
    """smallest lv in [0, U) with C, else max0(U)"""
    if C is TRUE: return ZERO
    if C is FALSE: return max0(U)
    return poly(Atom("find", lv, U, C))


# ----------------------------------------------------------------------------------------- bool
class BDD:
    __slots__ = ("v", "hi", "lo", "id", "depth", "_sup")
    tab = {}
    def __hash__(s): return mix(s.id)

    def __new__(cls, v, hi, lo):
        if hi is lo and v is not None: return hi
        k = (v, None if hi is None else hi.id, None if lo is None else lo.id) if v is not None else (None, hi, lo)
        b = cls.tab.get(k)
        if b is None:
            b = object.__new__(cls)
            b.v, b.hi, b.lo, b.id = v, hi, lo, next(_ids)
            b.depth = 0 if v is None else max(v.depth, hi.depth, lo.depth)
            b._sup = None
            cls.tab[k] = b
        return b

    def support(s):
        if s._sup is None:
            s._sup = frozenset() if s.v is None else frozenset([s.v]) | s.hi.support() | s.lo.support()
        return s._sup

    def __repr__(s):
        if s is TRUE: return "true"
        if s is FALSE: return "false"
        if s.hi is TRUE and s.lo is FALSE: return "%r" % s.v
        if s.hi is FALSE and s.lo is TRUE: return "!%r" % s.v
        if s.lo is FALSE: return "(%r & %r)" % (s.v, s.hi)
        if s.hi is FALSE: return "(!%r & %r)" % (s.v, s.lo)
        if s.hi is TRUE: return "(%r | %r)" % (s.v, s.lo)
        if s.lo is TRUE: return "(!%r | %r)" % (s.v, s.hi)
        return "(%r ? %r : %r)" % (s.v, s.hi, s.lo)


TRUE = BDD(None, True, True)
FALSE = BDD(None, False, False)


class Cmp:
    """comparison atom: ('ge0',P) ('eq0',P) ('op',key)"""
    __slots__ = ("op", "p", "id", "depth")
    tab = {}
    def __hash__(s): return mix(s.id)

    def __new__(cls, op, p):
        k = (op, p)
        c = cls.tab.get(k)
        if c is None:
            c = object.__new__(cls)
            c.op, c.p, c.id = op, p, next(_ids)
            c.depth = getattr(p, "depth", 0)
            cls.tab[k] = c
        return c

    def __repr__(s):
        if s.op == "ge0": return "{%r >= 0}" % s.p
        if s.op == "eq0": return "{%r == 0}" % s.p
        return "{%s %r}" % (s.op, s.p)


_ite_memo = {}


def bite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    k = (f.id, g.id, h.id)
    r = _ite_memo.get(k)
    if r is None:
        v = min((x.v for x in (f, g, h) if x.v is not None), key=lambda c: c.id)
        r = BDD(v, bite(cof(f, v, 1), cof(g, v, 1), cof(h, v, 1)), bite(cof(f, v, 0), cof(g, v, 0), cof(h, v, 0)))
        _ite_memo[k] = r
    return r


def cof(f, v, b):
    if f.v is v: return f.hi if b else f.lo
    return f


def band(a, b): return bite(a, b, FALSE)
def bor(a, b): return bite(a, TRUE, b)
def bnot(a): return bite(a, FALSE, TRUE)


_restr_memo = {}


def restrict(f, c):
    """simplify f assuming c (generalised cofactor, Coudert-Madre restrict)"""
    if c is TRUE or f.v is None: return f
    if c is FALSE: return f
    k = (f.id, c.id)
    r = _restr_memo.get(k)
    if r is None:
        if c.v is f.v:
            if c.lo is FALSE: r = restrict(f.hi, c.hi)
            elif c.hi is FALSE: r = restrict(f.lo, c.lo)
            else: r = BDD(f.v, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
        elif c.v.id < f.v.id:
            r = restrict(f, bor(c.hi, c.lo))
        else:
            r = BDD(f.v, restrict(f.hi, c), restrict(f.lo, c))
        _restr_memo[k] = r
    return r


def bvar(cmp): return BDD(cmp, TRUE, FALSE)


POS = set()          # symbols assumed to be >= 1 (preconditions of the entry point under analysis)


def _span(P):
    """(lowest, highest) value under the preconditions; None = unbounded"""
    lo = hi = 0
    for m, v in P.t.items():
        if m == ():
            lo, hi = (None if lo is None else lo + v), (None if hi is None else hi + v)
        elif all(a in POS for a, _ in m):
            if v > 0: lo, hi = (None if lo is None else lo + v), None
            else: hi, lo = (None if hi is None else hi + v), None
        else: return None, None
    return lo, hi


def ge0(P):
    P = poly(P)
    c = P.const()
    if c is not None: return TRUE if c >= 0 else FALSE
    if POS:
        lo, hi = _span(P)
        if lo is not None and lo >= 0: return TRUE
        if hi is not None and hi < 0: return FALSE
    g = content(P)
    if g > 1:      # sum g*x + k >= 0  <=>  sum x + floor(k/g) >= 0
        k = P.t.get((), 0)
        d = {m: v // g for m, v in P.t.items() if m != ()}
        if k // g: d[()] = k // g
        P = Poly(d)
    # canonical form shared with the negation: not(P>=0) == (-P-1>=0)
    N = -P - 1
    if _lead(P) < 0:
        return bnot(bvar(Cmp("ge0", N)))
    return bvar(Cmp("ge0", P))


def _lead(P):
    m = min((m for m in P.t if m != ()), key=lambda m: (sum(e for _, e in m), [(a.id, e) for a, e in m]))
    return P.t[m]


def content(P):
    import math
    g = 0
    for m, v in P.t.items():
        if m != (): g = math.gcd(g, v)
    return g


def eq0(P):
    P = poly(P)
    c = P.const()
    if c is not None: return TRUE if c == 0 else FALSE
    if POS:
        lo, hi = _span(P)
        if lo is not None and lo > 0 or hi is not None and hi < 0: return FALSE
    g = content(P)
    if g > 1:
        if P.t.get((), 0) % g: return FALSE
        P = Poly({m: v // g for m, v in P.t.items()})
    if _lead(P) < 0: P = -P
    # a bool turned into an int and compared again
    b = as_bool(P)
    if b is not None: return bnot(b)
    return bvar(Cmp("eq0", P))


def as_bool(P):
    """if P is exactly ite(c,1,0) (or 0/1 mirrored, k:0) the Bool 'P != 0'"""
    if len(P.t) == 1:
        (m, c), = P.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            b, x, y = m[0][0].args
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None:
                return bor(band(b, TRUE if cx else FALSE), band(bnot(b), TRUE if cy else FALSE))
    if len(P.t) == 2 and () in P.t:
        k = P.t[()]
        (m, c), = [(m, c) for m, c in P.t.items() if m != ()]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            b, x, y = m[0][0].args
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None:
                return bor(band(b, TRUE if cx * c + k else FALSE), band(bnot(b), TRUE if cy * c + k else FALSE))
    return None


def beq(a, b): return eq0(poly(a) - poly(b))
def bge(a, b): return ge0(poly(a) - poly(b))
def blt(a, b): return ge0(poly(b) - poly(a) - 1)


# --------------------------------------------------------------------------------------- pointers
class Obj:
    """memory object (or family of objects indexed by loop indices)"""
    def __init__(s, name, kind, size=None, site=None):
        s.name, s.kind, s.size, s.site = name, kind, size, site
        s.id = next(_ids)
        s.family = ()      # loop atoms the object is indexed by
        s.zero = False     # calloc
        s.cells = False    # small struct/scalar tracked field by field
        s.depth = 0

    def __hash__(s): return mix(s.id)
    def __repr__(s): return s.name


class Ptr:
    __slots__ = ("obj", "idx", "off", "depth")

    def __init__(s, obj, off, idx=()):
        s.obj, s.off, s.idx = obj, poly(off), tuple(idx)
        s.depth = 0

    def key(s): return (s.obj.id, s.idx, s.off)
    def __eq__(s, o): return isinstance(o, Ptr) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return "&%s%s[%r]" % (s.obj, "<%s>" % ",".join(map(repr, s.idx)) if s.idx else "", s.off)


class PIte:
    __slots__ = ("c", "a", "b", "depth")

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b
        s.depth = 0

    def __eq__(s, o): return isinstance(o, PIte) and s.c is o.c and s.a == o.a and s.b == o.b
    def __hash__(s): return hash((s.c.id, s.a, s.b))
    def __repr__(s): return "[%r ? %r : %r]" % (s.c, s.a, s.b)


class FE:
    """float / other opaque value: op + operands"""
    __slots__ = ("op", "args", "id", "depth")
    tab = {}
    def __hash__(s): return mix(s.id)

    def __new__(cls, op, *args):
        k = (op,) + args
        f = cls.tab.get(k)
        if f is None:
            f = object.__new__(cls)
            f.op, f.args, f.id = op, args, next(_ids)
            f.depth = 1 + max([getattr(x, "depth", 0) for x in args] or [0])
            cls.tab[k] = f
        return f

    def __repr__(s): return "%s(%s)" % (s.op, ", ".join(map(repr, s.args)))


class Unknown(Exception):
    pass


# ---------------------------------------------------------------------------------- traversal
_cont_memo = {}


def contains(x, atom):
    """does x mention the atom (free occurrence)?"""
    if isinstance(x, Atom):
        if x is atom: return True
        if not x.args: return False
    elif not isinstance(x, (Poly, BDD, Cmp, FE, Ptr, PIte, tuple)):
        return False
    if isinstance(x, (Ptr, PIte, tuple)):
        return _cont(x, atom)
    k = (x.id, atom.id)
    r = _cont_memo.get(k)
    if r is None:
        r = _cont_memo[k] = _cont(x, atom)
    return r


def _cont(x, atom):
    if isinstance(x, Atom):
        if x.kind in ("sum", "find"):
            return contains(x.args[1], atom) or (x.args[0] is not atom and contains(x.args[2], atom))
        return any(contains(a, atom) for a in x.args)
    if isinstance(x, Poly): return any(contains(a, atom) for a in x.atoms())
    if isinstance(x, BDD): return x.v is not None and any(contains(c, atom) for c in x.support())
    if isinstance(x, Cmp): return contains(x.p, atom)
    if isinstance(x, FE): return any(contains(a, atom) for a in x.args)
    if isinstance(x, Ptr): return contains(x.off, atom) or any(contains(i, atom) for i in x.idx)
    if isinstance(x, PIte): return contains(x.c, atom) or contains(x.a, atom) or contains(x.b, atom)
    if isinstance(x, tuple): return any(contains(a, atom) for a in x)
    return False


def all_atoms(x, acc=None):
    acc = set() if acc is None else acc
    st = [x]
    seen = set()
    while st:
        y = st.pop()
        if isinstance(y, (Poly, BDD, Cmp, FE, Atom)):
            if y.id in seen: continue
            seen.add(y.id)
        if isinstance(y, Atom):
            acc.add(y); st.extend(y.args)
        elif isinstance(y, Poly): st.extend(y.atoms())
        elif isinstance(y, BDD):
            if y.v is not None: st.extend(y.support())
        elif isinstance(y, Cmp): st.append(y.p)
        elif isinstance(y, FE): st.extend(y.args)
        elif isinstance(y, Ptr): st.append(y.off); st.extend(y.idx)
        elif isinstance(y, PIte): st.extend((y.c, y.a, y.b))
        elif isinstance(y, tuple): st.extend(y)
    return acc


class Subst:
    """simultaneous substitution of atoms by polynomials (memoised)"""

    def __init__(s, mp, ptrs=None):
        s.mp = mp
        s.memo = {}
        s.bm = {}

    def __call__(s, x):
        if x is None or isinstance(x, (int, str, float)): return x
        if isinstance(x, Poly): return s.poly(x)
        if isinstance(x, BDD): return s.bdd(x)
        if isinstance(x, Ptr): return Ptr(x.obj, s.poly(x.off), [s.poly(i) for i in x.idx])
        if isinstance(x, PIte): return pite(s.bdd(x.c), s(x.a), s(x.b))
        if isinstance(x, FE):
            r = s.memo.get(x.id)
            if r is None:
                r = s.memo[x.id] = fe(x.op, *[s(a) for a in x.args])
            return r
        if isinstance(x, Atom): return s.atom(x)
        if isinstance(x, tuple): return tuple(s(y) for y in x)
        return x

    def poly(s, p):
        r = s.memo.get(p.id)
        if r is None:
            if not any(s.touch(a) for a in p.atoms()):
                r = p
            else:
                r = ZERO
                for m, c in p.t.items():
                    q = poly(c)
                    for a, e in m:
                        b = s.atom(a)
                        for _ in range(e): q = q * b
                    r = r + q
            s.memo[p.id] = r
        return r

    def touch(s, a):
        k = ("t", a.id)
        r = s.memo.get(k)
        if r is None:
            if a in s.mp: r = True
            elif not a.args or a.kind in ("sym", "lv", "ph", "unk0"): r = False
            else: r = any(s._touch(x) for x in a.args)
            s.memo[k] = r
        return r

    def _touch(s, x):
        if isinstance(x, Poly): return any(s.touch(a) for a in x.atoms())
        if isinstance(x, Atom): return s.touch(x)
        if isinstance(x, BDD): return any(s._touch(c.p) for c in x.support())
        if isinstance(x, FE):
            k = ("f", x.id)
            r = s.memo.get(k)
            if r is None: r = s.memo[k] = any(s._touch(a) for a in x.args)
            return r
        if isinstance(x, Ptr): return s._touch(x.off) or any(s._touch(i) for i in x.idx)
        if isinstance(x, PIte): return s._touch(x.c) or s._touch(x.a) or s._touch(x.b)
        if isinstance(x, tuple): return any(s._touch(a) for a in x)
        return False

    def atom(s, a):
        if a in s.mp: return poly(s.mp[a])
        r = s.memo.get(a.id)
        if r is None:
            if not s.touch(a): r = poly(a)
            elif a.kind == "div": r = div(s.poly(a.args[0]), s.poly(a.args[1]))
            elif a.kind == "cdiv": r = cdiv(s.poly(a.args[0]), s.poly(a.args[1]))
            elif a.kind == "ite": r = ite(s.bdd(a.args[0]), s.poly(a.args[1]), s.poly(a.args[2]))
            elif a.kind == "max0": r = max0(s.poly(a.args[0]))
            elif a.kind == "find":
                lv, U, P = a.args
                if any(contains(v, lv) for v in s.mp.values()):
                    nl = Atom("lv", "%s'" % lv.args[0], next(_ids))
                    P = Subst({lv: poly(nl)}).bdd(P)
                    lv = nl
                r = find(lv, s.poly(U), s.bdd(P))
            elif a.kind == "sum":
                lv, U, P = a.args
                if lv in s.mp:
                    sub = Subst({k: v for k, v in s.mp.items() if k is not lv})
                    r = ssum(lv, s.poly(U), sub.poly(P))
                else:
                    # capture check
                    if any(contains(v, lv) for v in s.mp.values()):
                        nl = Atom("lv", "%s'" % lv.args[0], next(_ids))
                        P = Subst({lv: poly(nl)}).poly(P)
                        lv = nl
                    r = ssum(lv, s.poly(U), s.poly(P))
            else:
                r = poly(Atom(a.kind, *[s(x) for x in a.args]))
            s.memo[a.id] = r
        return r

    def bdd(s, b):
        if b.v is None: return b
        r = s.bm.get(b.id)
        if r is None:
            r = s.bm[b.id] = bite(s.cmp(b.v), s.bdd(b.hi), s.bdd(b.lo))
        return r

    def cmp(s, c):
        k = ("c", c.id)
        r = s.bm.get(k)
        if r is None:
            if c.op == "ge0": r = ge0(s.poly(c.p))
            elif c.op == "eq0": r = eq0(s.poly(c.p))
            else: r = bvar(Cmp(c.op, s(c.p)))
            s.bm[k] = r
        return r


def pite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return Ptr(a.obj, ite(c, a.off, b.off), [ite(c, x, y) for x, y in zip(a.idx, b.idx)])
    return PIte(c, a, b)


def fe(op, *a):
    if op == "fite":
        c, x, y = a
        if c is TRUE: return x
        if c is FALSE: return y
        if x is y: return x
    return FE(op, *a)
