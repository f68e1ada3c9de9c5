"""Witness search for obligations the symbolic rules left open.

The summary of a driver (drivers.py) is a set of access relations in closed form over the loop indices and the
free parameters.  Here those relations are instantiated at one parameter valuation: which bytes each construct
touches, which definition reaches which use, which products end in which element of C.  A relation that breaks its
obligation at some valuation is a counterexample to that obligation; the construct (file:line) is the event's.
"""
import math, re
from expr import *
import interp as N


class Opaque(Exception):
    pass


class Stop(Exception):
    pass


def sdiv(a, b):
    if b == 0: return 0
    if isinstance(a, float) or isinstance(b, float): a, b = int(a), int(b)
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def scdiv(a, b):
    if b == 0: return 0
    return -((-a) // b)


def sfdiv(a, b):
    if b == 0: return math.inf if a > 0 else -math.inf if a < 0 else math.nan
    return a / b


def ftoi(x):
    if x is POISON: return x
    if x != x or x in (math.inf, -math.inf) or abs(x) > 2 ** 31: return -2 ** 31
    return int(x)


def ffn(n, *a):
    try:
        if n == "sqrt": return math.sqrt(a[0]) if a[0] >= 0 else math.nan
        if n == "ceil": return float(math.ceil(a[0]))
        if n == "floor": return float(math.floor(a[0]))
        if n == "round": return float(math.floor(a[0] + 0.5)) if a[0] >= 0 else -float(math.floor(-a[0] + 0.5))
        if n == "fabs": return abs(a[0])
        if n == "pow": return float(a[0]) ** a[1]
        if n in ("log", "log2", "exp"): return getattr(math, n)(a[0])
    except (ValueError, OverflowError):
        return math.nan
    raise Opaque(n)


class Gen:
    """Python source of the instantiated relations"""

    def __init__(s, events, only=None, lets=None):
        s.lets = lets or {}
        s.scopes = [dict(lines=[], have={}, lvs={})]
        s.evs = []
        s.objs = {}
        s.consts = {}
        s.syms = {}
        s.nv = 0
        s.poison = False
        s.skipped = []
        s.vague = []
        s.block(events, only)
        body = s.close()
        head = ["def run(E, H):"]
        for a, n in s.syms.items(): head.append("  %s = E[%r]" % (n, a.args[0]))
        src = "\n".join(head + ["  " + l for l in body] or ["  pass"])
        g = dict(sdiv=sdiv, scdiv=scdiv, sfdiv=sfdiv, ftoi=ftoi, ffn=ffn, O=s.consts, POISON=POISON)
        exec(compile(src, "<summary>", "exec"), g)
        s.src = src
        s.run = g["run"]

    def close(s):
        return s.scopes.pop()["lines"]

    # lines in a scope: prelude assignments are appended where first needed; since all expressions are pure
    # functions of loop indices, an assignment may be hoisted to the head of the scope that binds its indices
    def hoist(s, d, line):
        sc = s.scopes[d]
        sc.setdefault("pre", []).append(line)

    def var(s):
        s.nv += 1
        return "v%d" % s.nv

    def depth(s, x):
        d = 0
        for i in range(len(s.scopes) - 1, 0, -1):
            for lv in s.scopes[i]["lvs"]:
                if contains(x, lv): return i
        return 0

    def lookup(s, key):
        for sc in reversed(s.scopes):
            if key in sc["have"]: return sc["have"][key]
        return None

    def atom(s, a):
        k = a.kind
        if k == "lv":
            for sc in reversed(s.scopes):
                if a in sc["lvs"]: return sc["lvs"][a]
            raise Opaque("free index %r" % a)
        if k == "sym":
            if a in s.lets:
                v = s.scopes[0]["have"].get(a.id)
                if v is None:
                    keep, s.inline = getattr(s, "inline", 0), 0
                    e = s.ex(s.lets[a])
                    s.inline = keep
                    v = s.scopes[0]["have"][a.id] = s.var()
                    s.hoist(0, "%s = %s" % (v, e))
                return v
            n = s.syms.get(a)
            if n is None: n = s.syms[a] = "s%d" % len(s.syms)
            return n
        if k == "fc": return repr(float(a.args[0]))
        if k == "ld" and a.args[0].kind == "global": return s.gload(a)
        if k == "unk" and str(a.args[0]).startswith(("undef", "uninit")):
            s.poison = True
            return "POISON"
        if k in ("unk", "ph", "op", "ld"): raise Opaque(repr(a)[:80])
        v = s.lookup(a.id)
        if v: return v
        if k == "div": e = "sdiv(%s, %s)" % (s.ex(a.args[0]), s.ex(a.args[1]))
        elif k == "cdiv": e = "scdiv(%s, %s)" % (s.ex(a.args[0]), s.ex(a.args[1]))
        elif k == "fdiv": e = "sfdiv(%s, %s)" % (s.ex(a.args[0]), s.ex(a.args[1]))
        elif k == "ftoi": e = "ftoi(%s)" % s.ex(a.args[0])
        elif k == "fn": e = "ffn(%r, %s)" % (a.args[0], ", ".join(s.ex(x) for x in a.args[1:]))
        elif k == "max0": e = "max(0, %s)" % s.ex(a.args[0])
        elif k == "ite": e = "(%s if %s else %s)" % (s.ex(a.args[1]), s.bx(a.args[0]), s.ex(a.args[2]))
        elif k in ("sum", "find"):
            lv, U, B = a.args
            u = s.ex(U)
            n = s.var()
            s.scopes.append(dict(lines=[], have={}, lvs={lv: n}, pre=None))
            keep, s.inline = getattr(s, "inline", 0), 1
            b = s.rawex(B) if k == "sum" else s.bx(B)
            s.inline = keep
            s.scopes.pop()
            if k == "find": return "next((%s for %s in range(%s) if %s), max(0, %s))" % (n, n, u, b, u)
            return "sum((%s) for %s in range(%s))" % (b, n, u)
        else: raise Opaque(k)
        if getattr(s, "inline", 0): return "(%s)" % e
        d = s.depth(a)
        v = s.var()
        s.hoist(d, "%s = %s" % (v, e))
        s.scopes[d]["have"][a.id] = v
        return v

    def gload(s, a):
        """element of a constant table"""
        o = a.args[0]
        ty = o.gv.ty
        while ty.k == "array": ty = ty.elem
        if o.gv.v["init"] is None: raise Opaque("table %s" % o.name)
        s.tables = getattr(s, "tables", {})
        s.tables[o.id] = (o.gv, ty.size)
        return "H.table(%s, %s)" % (s.const(o.gv), s.ex(a.args[2]))

    def rawex(s, P): return s.ex(P)

    def ex(s, P):
        if not P.t: return "0"
        out = []
        for m, c in P.t.items():
            f = [s.atom(a) for a, e in m for _ in range(e)]
            if c != 1 or not f: f = [repr(c)] + f
            out.append("*".join(f))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]

    def cmp(s, c):
        if c.op == "ge0": return "%s >= 0" % s.ex(c.p)
        if c.op == "eq0": return "%s == 0" % s.ex(c.p)
        if c.op in ("fgt", "fge", "flt", "fle"):
            return "%s %s %s" % (s.ex(c.p[0]), {"gt": ">", "ge": ">=", "lt": "<", "le": "<="}[c.op[1:]], s.ex(c.p[1]))
        raise Opaque("condition %r" % (c,))

    def bx(s, b):
        if b is TRUE: return "True"
        if b is FALSE: return "False"
        v = s.lookup(("b", b.id))
        if v: return v
        if b.hi is TRUE and b.lo is FALSE: return "(%s)" % s.cmp(b.v)
        if b.hi is FALSE and b.lo is TRUE: return "(not (%s))" % s.cmp(b.v)
        e = "(%s if %s else %s)" % (s.bx(b.hi), s.cmp(b.v), s.bx(b.lo))
        if getattr(s, "inline", 0): return e
        d = s.depth(b)
        v = s.var()
        s.hoist(d, "%s = %s" % (v, e))
        s.scopes[d]["have"]["b", b.id] = v
        return v

    # ------------------------------------------------------------ events
    def const(s, x):
        k = len(s.consts)
        s.consts[k] = x
        return "O[%d]" % k

    def ptr(s, p):
        """key expression, offset expression"""
        if isinstance(p, N.Ptr):
            k = "(%d, %s)" % (p.obj.id, "".join(s.ex(i) + "," for i in p.idx)) if p.idx else "(%d,)" % p.obj.id
            s.objs[p.obj.id] = p.obj
            return k, s.ex(p.off)
        if isinstance(p, N.PIte):
            c = s.bx(p.c)
            ka, oa = s.ptr(p.a)
            kb, ob = s.ptr(p.b)
            return "(%s if %s else %s)" % (ka, c, kb), "(%s if %s else %s)" % (oa, c, ob)
        raise Opaque("pointer %r" % (p,))

    def fval(s, P):
        """value of a stored float: list of (coefficient, [(key, off)...])"""
        if isinstance(P, Poly):
            if all(a.kind in ("ld", "ite", "sum") for a in P.atoms()):
                ats = P.atoms()
                if len(P.t) == 1 and len(ats) == 1:
                    a = next(iter(ats))
                    if P.t == {((a, 1),): 1}:
                        if a.kind == "ite": return "(%s if %s else %s)" % (s.fval(a.args[1]), s.bx(a.args[0]), s.fval(a.args[2]))
                        if a.kind == "ld": return "[(1, [%s])]" % s.ldkey(a)
                out = []
                for m, c in P.t.items():
                    if any(a.kind != "ld" for a, _ in m):
                        if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].kind == "ite":
                            out.append(s.fval(poly(m[0][0])))
                            continue
                        if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].kind == "sum":
                            lv, U, B = m[0][0].args
                            u = s.ex(U)
                            n = s.var()
                            s.scopes.append(dict(lines=[], have={}, lvs={lv: n}))
                            keep, s.inline = getattr(s, "inline", 0), 1
                            b = s.fval(B)
                            s.inline = keep
                            s.scopes.pop()
                            out.append("[z for %s in range(%s) for z in %s]" % (n, u, b))
                            continue
                        f = [(a, e) for a, e in m if a.kind != "ld"]
                        if any(a.kind == "sum" or any(x.kind == "ld" for x in all_atoms(poly(a))) for a, e in f): raise Opaque("value %r" % P)
                        k = s.ex(poly(c) * prod_atoms(f))
                        out.append("[(%s, [%s])]" % (k, ", ".join(s.ldkey(a) for a, e in m if a.kind == "ld" for _ in range(e))))
                        continue
                    out.append("[(%d, [%s])]" % (c, ", ".join(s.ldkey(a) for a, e in m for _ in range(e))))
                return "(" + " + ".join(out or ["[]"]) + ")"
        raise Opaque("value %r" % (P,))

    def ldkey(s, a):
        o, idx, off = a.args
        k, f = s.ptr(N.Ptr(o, off, idx))
        return "(%s, %s)" % (k, f)

    def block(s, evs, only):
        for e in evs:
            if only is not None and not only(e): continue
            lines = s.scopes[-1]["lines"]
            try:
                g = s.bx(e.guard)
                if e.guard is FALSE: continue
                if e.kind == "loop":
                    nv = getattr(e, "never", FALSE)
                    if nv is not None and nv is not FALSE:
                        x = "if %s: H.forever(%s)" % (s.bx(nv), s.const(e))
                        s.scopes[-1]["lines"] += [x] if g == "True" else ["if %s:" % g, "  " + x]
                    if not any(x.kind not in ("loop", "div", "pload") for x, _ in N.walk(e.body)) and \
                            not any(x.kind == "div" or getattr(x, "never", FALSE) not in (FALSE, None) for x, _ in N.walk(e.body)): continue
                    T = s.ex(e.T)
                    n = s.var()
                    s.scopes.append(dict(lines=[], have={}, lvs={e.lv: n}, pre=[]))
                    s.block(e.body, only)
                    sc = s.scopes.pop()
                    body = sc.get("pre", []) + sc["lines"]
                    if not body: continue
                    i = s.const(e)
                    blk = []
                    if e.par: blk.append("H.par_begin(%s)" % i)
                    blk.append("for %s in range(%s):" % (n, "H.trip(%s, %s)" % (i, T) if s.poison else T))
                    if e.par: blk.append("  H.par_iter(%s)" % n)
                    blk += ["  " + l for l in body]
                    if e.par: blk.append("H.par_end()")
                else:
                    blk = s.event(e)
                    if s.poison: blk = [re.sub(r"^H\.(\w+)\(", r"H.guarded(H.\1, ", l) for l in blk]
                if not blk: continue
            except Opaque as x:
                s.skipped.append((e, str(x)))
                continue
            s.scopes[-1]["lines"] += blk if g == "True" else ["if %s:" % g] + ["  " + l for l in blk]
        if len(s.scopes) == 1:
            sc = s.scopes[0]
            sc["lines"] = sc.get("pre", []) + sc["lines"]

    def event(s, e):
        i = s.const(e)
        k = e.kind
        if k in ("pload", "pstore", "call", "uninit"):
            if k == "pload" and hasattr(e, "index"):
                return ["H.slot(%s, %s, %s)" % (i, s.ex(e.index), s.ex(e.limit))]
            return []
        if k == "contract": return ["H.contract(%s, %s)" % (i, s.ex(e.val))]
        if k == "exit": return ["H.ends(%s)" % i]
        if k == "div": return ["H.div(%s, %s)" % (i, s.ex(e.den))]
        if k == "load":
            key, off = s.ptr(e.ptr)
            return ["H.load(%s, %s, %s, %d)" % (i, key, off, e.width)]
        if k == "store":
            key, off = s.ptr(e.ptr)
            vs = e.val if isinstance(e.val, tuple) else (e.val,)
            w = e.width // len(vs)
            r = []
            for j, v in enumerate(vs):
                if not isinstance(v, Poly): raise Opaque("stored value")
                c = v.const()
                try: x = "[]" if c == 0 else s.fval(v)
                except Opaque as q:
                    x = "None"
                    s.vague.append((e, str(q)))
                r.append("H.store(%s, %s, %s, %d, %s)" % (i, key, off if j == 0 else "%s + %d" % (off, j * w), w, x))
            return r
        if k == "memset":
            key, off = s.ptr(e.ptr)
            return ["H.memset(%s, %s, %s, %s, %s)" % (i, key, off, s.ex(e.len), s.ex(e.val))]
        if k == "memcpy":
            kd, od = s.ptr(e.dst)
            ks, os_ = s.ptr(e.src)
            return ["H.memcpy(%s, %s, %s, %s, %s, %s)" % (i, kd, od, ks, os_, s.ex(e.len))]
        if k == "alloc":
            key, _ = s.ptr(e.ptr)
            return ["H.alloc(%s, %s, %s)" % (i, key, s.ex(e.size))]
        if k == "free":
            key, off = s.ptr(e.ptr)
            return ["H.free(%s, %s, %s)" % (i, key, off)]
        if k == "kernel":
            a = e.args
            ps = [s.ptr(x) for x in a[:3]]
            return ["H.kernel(%s, %s, %s)" % (i, ", ".join("(%s, %s)" % p for p in ps), ", ".join(s.ex(x) for x in a[3:]))]
        if k == "packk":
            a = e.args
            src, dst = s.ptr(a[3]), s.ptr(a[6])
            return ["H.packk(%s, %s, %s, (%s, %s), %s, %s, (%s, %s), %s)" % (i, s.ex(a[0]), s.ex(a[1]), src[0], src[1], s.ex(a[4]), s.ex(a[5]), dst[0], dst[1], s.ex(a[7]))]
        raise Opaque("event " + k)


UNDEF = ("undef",)


class Poison:
    """a number nobody assigned: arithmetic keeps it, and the event that uses it is reported"""
    def _s(s, *a): return s
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __rfloordiv__ = __truediv__ = __rtruediv__ = _s
    __mod__ = __rmod__ = __pow__ = __neg__ = __abs__ = __round__ = __floor__ = __ceil__ = _s
    def __gt__(s, o): return True
    def __lt__(s, o): return False
    __ge__ = __le__ = __lt__


POISON = Poison()


def poisoned(a): return any(x is POISON or isinstance(x, tuple) and poisoned(x) for x in a)


class Host:
    """reaching definitions of one valuation"""

    def __init__(s, env, objs, args):
        """args: {Obj id: (name, size in bytes)} of the user's operands"""
        s.env, s.objs = env, objs
        s.size, s.mem, s.name, s.state = {}, {}, {}, {}
        s.bad = []                      # (rule, Ev, text)
        s.reg = {}
        s.par = []
        for oid, (nm, sz) in args.items():
            k = (oid,)
            s.size[k], s.mem[k], s.name[k], s.state[k] = sz, {}, nm, "arg"
        s.nbad = {}
        s.writer = {}
        s.tiles = {}

    def flag(s, rule, ev, text):
        k = (rule, ev.uid)
        s.nbad[k] = s.nbad.get(k, 0) + 1
        if s.nbad[k] <= 1: s.bad.append((rule, ev, text))

    def ends(s, ev): s.flag("process end", ev, "the call ends the process instead of returning")

    def forever(s, ev):
        s.flag("endless loop", ev, "the loop never ends")
        raise Stop()

    def trip(s, ev, n):
        if n is not POISON: return n
        s.flag("undef", ev, "the number of iterations is a value that was never assigned")
        return 0

    def guarded(s, f, ev, *a):
        if poisoned(a): s.flag("undef", ev, "%s with a value that was never assigned" % ev.kind)
        else: f(ev, *a)

    # objects
    def label(s, k):
        if k in s.name: return s.name[k]
        o = s.objs.get(k[0])
        return o.name if o else str(k)

    def check(s, ev, k, off, width, what):
        st = s.state.get(k)
        if st is None:
            o = s.objs.get(k[0])
            if o is not None and o.kind == "stack":
                return True
            if o is not None and o.kind == "global":
                if not 0 <= off <= o.gv.ty.size - width:
                    s.flag("slot", ev, "%s of bytes [%d, %d) of the table %s, which has %d bytes" % (what, off, off + width, o.name, o.gv.ty.size))
                return False
            s.flag("live", ev, "%s of %s, which is not an allocated object here" % (what, s.label(k)))
            return False
        if st == "freed":
            s.flag("live", ev, "%s of %s after it was freed" % (what, s.label(k)))
            return False
        if off < 0 or off + width > s.size[k]:
            s.flag("bounds:" + st, ev, "%s of bytes [%d, %d) of %s, which has %d bytes" % (what, off, off + width, s.label(k), s.size[k]))
            return False
        return True

    def read(s, ev, k, off, what="read"):
        if not s.check(ev, k, off, 4, what): return UNDEF
        m = s.mem[k]
        v = m.get(off)
        if v is None:
            if s.state[k] == "arg": return {((s.name[k], off),): 1}
            if m.get("zero"): return {}
            return UNDEF
        return v

    def touch(s, ev, k, off, write):
        if not s.par: return
        for fr in s.par:
            d = fr["rw"]
            key = (k, off)
            p = d.get(key)
            it = fr["it"]
            if p is None: d[key] = (it if write else None, {it})
            else:
                w, rs = p
                if write:
                    if (w is not None and w != it) or (rs - {it}):
                        s.flag("race", ev, "iterations %r and %d of the parallel loop at %s both access %s byte %d, one writes" %
                               (w if w is not None and w != it else sorted(rs - {it})[0], it, fr["ev"].loc().split(" ")[0], s.label(k), off))
                    d[key] = (it, rs | {it})
                else:
                    if w is not None and w != it:
                        s.flag("race", ev, "iteration %d of the parallel loop at %s reads %s byte %d that iteration %d writes" %
                               (it, fr["ev"].loc().split(" ")[0], s.label(k), off, w))
                    rs.add(it)

    # events
    def par_begin(s, ev): s.par.append({"ev": ev, "it": 0, "rw": {}})
    def par_iter(s, n): s.par[-1]["it"] = n
    def par_end(s): s.par.pop()

    def slot(s, ev, i, lim):
        if not 0 <= i < lim: s.flag("slot", ev, "entry %d of a table of buffers with %d entries" % (i, lim))

    def contract(s, ev, v):
        E, f = s.env, ev.field
        mr, nr, p = E["cake_cntx.mr"], E["cake_cntx.nr"], E["p"]
        s.tiles.setdefault(f, []).append(v)
        if v < 1: s.flag("contract", ev, "%s = %d is not positive" % (f, v))
        elif f == "m_c" and v % mr: s.flag("contract", ev, "m_c = %d is not a multiple of mr = %d" % (v, mr))
        elif f == "n_c" and v % nr: s.flag("contract", ev, "n_c = %d is not a multiple of nr = %d" % (v, nr))
        elif f in ("pm", "pn") and v > p: s.flag("contract", ev, "%s = %d exceeds the %d threads" % (f, v, p))
        if f in ("pm", "pn") and len(s.tiles.get("pm", ())) == len(s.tiles.get("pn", ())) == 1 and s.tiles["pm"][0] * s.tiles["pn"][0] > p:
            s.flag("contract", ev, "process grid %d x %d for %d threads" % (s.tiles["pm"][0], s.tiles["pn"][0], p))

    def table(s, gv, off):
        """value of a constant table; outside it: unspecified"""
        if not 0 <= off < gv.ty.size: return 0
        v = N.const_at(gv.v["init"], gv.ty, off)
        if v is None: return 0
        return v.v if isinstance(v.v, (int, float)) else 0

    def div(s, ev, d):
        if d == 0: s.flag("divzero", ev, "division by zero")

    def alloc(s, ev, k, sz):
        if s.state.get(k) == "live": s.flag("leak", ev, "%s allocated again while still held" % s.label(k))
        s.state[k], s.size[k], s.mem[k] = "live", sz, {"zero": ev.how == "calloc"}
        if sz < 0: s.flag("alloc", ev, "allocation of %d bytes" % sz)

    def free(s, ev, k, off):
        st = s.state.get(k)
        if st != "live":
            s.flag("freearg" if st == "arg" else "free", ev, "free of %s (%s)" % (s.label(k), {"arg": "the caller's", "freed": "already freed"}.get(st, "not allocated")))
        elif off: s.flag("free", ev, "free of an interior pointer")
        else: s.state[k] = "freed"

    def load(s, ev, k, off, w):
        for j in range(0, w, 4):
            if w < 4:
                s.check(ev, k, off, w, "read")
                break
            v = s.read(ev, k, off + j)
            s.touch(ev, k, off + j, False)
            s.reg[(k, off + j)] = v

    def store(s, ev, k, off, w, val):
        if not s.check(ev, k, off, w, "write"): return
        s.touch(ev, k, off, True)
        if s.state[k] == "arg": s.argstore(ev, k, off)
        if val is None: r = UNDEF
        else:
            r = {}
            for c, fs in val:
                t = {(): c}
                for key, o in fs:
                    v = s.reg.get((key, o))
                    if v is None: v = s.read(ev, key, o)
                    if v is UNDEF: t = UNDEF; break
                    t = mulc(t, v)
                if t is UNDEF: r = UNDEF; break
                for m, x in t.items():
                    y = r.get(m, 0) + x
                    if y: r[m] = y
                    else: r.pop(m, None)
        s.mem[k][off] = r

    def argstore(s, ev, k, off):
        if s.name[k] == "C": s.writer[off] = ev
        if s.name[k] != "C": s.flag("readonly", ev, "write to the caller's operand %s" % s.name[k])

    def memset(s, ev, k, off, n, v):
        if n <= 0:
            if n < 0: s.flag("bounds:" + s.state.get(k, "?"), ev, "memset of %d bytes" % n)
            return
        if not s.check(ev, k, off, n, "memset"): return
        if s.state[k] == "arg": s.argstore(ev, k, off)
        m = s.mem[k]
        for o in range(off, off + n, 4):
            s.touch(ev, k, o, True)
            m[o] = {} if v == 0 else UNDEF

    def memcpy(s, ev, kd, od, ks, os_, n):
        if n <= 0: return
        if not s.check(ev, kd, od, n, "memcpy write") or not s.check(ev, ks, os_, n, "memcpy read"): return
        if s.state[kd] == "arg": s.argstore(ev, kd, od)
        vs = []
        for j in range(0, n, 4):
            vs.append(s.read(ev, ks, os_ + j)); s.touch(ev, ks, os_ + j, False)
        for j in range(0, n, 4):
            s.mem[kd][od + j] = vs[j // 4]
            s.touch(ev, kd, od + j, True)

    def packk(s, ev, cdim, k, src, inca, lda, dst, ldp):
        for t in range(k):
            for i in range(cdim):
                v = s.read(ev, src[0], src[1] + 4 * (i * inca + t * lda), "packing read")
                s.touch(ev, src[0], src[1] + 4 * (i * inca + t * lda), False)
                o = dst[1] + 4 * (t * ldp + i)
                if s.check(ev, dst[0], o, 4, "packing write"):
                    s.touch(ev, dst[0], o, True)
                    s.mem[dst[0]][o] = v

    def kernel(s, ev, A, B, C, m, n, k):
        mr, nr = s.env["cake_cntx.mr"], s.env["cake_cntx.nr"]
        if (m, n) != (mr, nr):
            s.flag("tile", ev, "micro-kernel called with a %d x %d tile, packed for %d x %d" % (m, n, mr, nr))
            m, n = mr, nr
        if k < 0:
            s.flag("tile", ev, "micro-kernel called with depth %d" % k)
            return
        ok = True
        if k:
            for (key, off), ln, w in ((A, 4 * mr * k, "A"), (B, 4 * nr * k, "B")):
                ok = s.check(ev, key, off, ln, "micro-kernel read (%s panel)" % w) and ok
        ok = s.check(ev, C[0], C[1], 4 * mr * nr, "micro-kernel update (C tile)") and ok
        if not ok: return
        if s.state[C[0]] == "arg": s.argstore(ev, C[0], C[1])
        ma, mb, mc = s.mem[A[0]], s.mem[B[0]], s.mem[C[0]]
        av = [[s.read(ev, A[0], A[1] + 4 * (t * m + i)) for i in range(m)] for t in range(k)]
        bv = [[s.read(ev, B[0], B[1] + 4 * (t * n + j)) for j in range(n)] for t in range(k)]
        if s.par:
            for t in range(k):
                for i in range(m): s.touch(ev, A[0], A[1] + 4 * (t * m + i), False)
                for j in range(n): s.touch(ev, B[0], B[1] + 4 * (t * n + j), False)
        for i in range(m):
            for j in range(n):
                o = C[1] + 4 * (i * n + j)
                s.touch(ev, C[0], o, True)
                c = s.read(ev, C[0], o)
                if c is UNDEF:
                    s.mem[C[0]][o] = UNDEF
                    continue
                c = dict(c)
                for t in range(k):
                    x, y = av[t][i], bv[t][j]
                    if x == {} or y == {}: 
                        if (x is UNDEF or y is UNDEF): c = UNDEF; break
                        continue
                    if x is UNDEF or y is UNDEF: c = UNDEF; break
                    for p, q in mulc(x, y).items():
                        z = c.get(p, 0) + q
                        if z: c[p] = z
                        else: c.pop(p, None)
                s.mem[C[0]][o] = c

    def finish(s):
        return [(k, s.label(k)) for k, st in s.state.items() if st == "live"]


def prod_atoms(f):
    r = ONE
    for a, e in f:
        for _ in range(e): r = r * poly(a)
    return r


def mulc(a, b):
    if len(a) == 1 and len(b) == 1:
        (m, c), = a.items()
        (q, d), = b.items()
        return {tuple(sorted(m + q)) if m and q else m + q: c * d}
    r = {}
    for m, c in a.items():
        for q, d in b.items():
            k = tuple(sorted(m + q))
            x = r.get(k, 0) + c * d
            if x: r[k] = x
            else: r.pop(k, None)
    return r
