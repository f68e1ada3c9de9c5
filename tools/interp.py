"""Abstract interpretation of one (inlined) function to a loop-nest summary in closed form.

The control-flow graph is processed structurally: blocks in topological order, every natural loop once.
Header phis and memory cells changed by a loop get placeholders; the value they have after one abstract
pass over the body is solved for a closed form in the loop index (affine, finite sum, reset, if-then-else),
which is then substituted.  Values are the symbolic terms of expr.py, never numbers.

Result: a tree of events (Loop / load / store / kernel / packk / memset / alloc / free ...), each with the
guard under which it happens inside its loop body and the source location it comes from.
"""
import itertools, os, re
from expr import *
from frontend import Broken, demangle_name

_uid = itertools.count(1)


class Ev:
    """one event of the summary"""
    def __init__(s, kind, ins, **kw):
        s.kind, s.ins, s.guard = kind, ins, TRUE
        s.uid = next(_uid)
        s.body = None
        s.__dict__.update(kw)

    def loc(s):
        return loc(s.ins)

    def __hash__(s): return mix(s.uid)

    def fields(s):
        return [k for k in s.__dict__ if k not in ("kind", "ins", "uid", "body", "lv", "par", "obj", "name", "issues")]

    def __repr__(s):
        return "%s@%s{%s}" % (s.kind, s.loc(), ", ".join("%s=%r" % (k, getattr(s, k)) for k in s.fields() if k != "guard" or s.guard is not TRUE))


def loc(ins):
    """file:line of the statement, with the inlining chain"""
    if ins is None:
        return "?"
    f = "%s:%d" % (short(ins.file), ins.line)
    for g, l in ins.chain[:6]:
        f += " < %s:%d" % (short(g), l)
    return f


def short(f):
    for k in ("/src/", "/include/"):
        if k in f:
            return k[1:] + f.split(k, 1)[1]
    return os.path.basename(f)


TEAMS = ("omp_set_num_threads", "__kmpc_push_num_threads", "__verif_fork", "__kmpc_serialized_parallel", "omp_get_max_threads",
         "omp_set_dynamic", "omp_set_max_active_levels")


class LoopInfo:
    def __init__(s, head):
        s.head, s.blocks, s.sub, s.parent, s.latches = head, {head}, [], None, []

    def __hash__(s): return hash(s.head)


def loop_forest(fn):
    """natural loops; returns (top loops, block -> innermost loop, rpo)"""
    rpo, seen = [], set()
    st = [(fn.blocks[0], iter(fn.blocks[0].succ))]
    seen.add(fn.blocks[0])
    while st:
        b, it = st[-1]
        for q in it:
            if q not in seen:
                seen.add(q)
                st.append((q, iter(q.succ)))
                break
        else:
            rpo.append(b)
            st.pop()
    rpo.reverse()
    num = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for q in b.pred:
                if q in idom:
                    if n is None: n = q
                    else:
                        x, y = q, n
                        while x is not y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        n = x
            if idom.get(b) is not n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while num[b] > num[a]: b = idom[b]
        return a is b
    loops = {}
    for b in rpo:
        for q in b.succ:
            if q in num and dom(q, b):
                L = loops.setdefault(q, LoopInfo(q))
                L.latches.append(b)
                w = [b]
                while w:
                    x = w.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        w += [y for y in x.pred if y in num]
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    inner = {}
    for l in ls:
        for b in l.blocks:
            inner.setdefault(b, l)
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.head in m.blocks:
                l.parent = m
                m.sub.append(l)
                break
    return [l for l in ls if l.parent is None], inner, rpo, idom, num


NULL = Obj("NULL", "null")


def is_null(p):
    return isinstance(p, Ptr) and p.obj is NULL


class FPtr:
    """function pointer loaded from a table (obj, byte offset)"""
    depth = 0

    def __init__(s, obj, off): s.obj, s.off = obj, off
    def __repr__(s): return "fp %s[%r]" % (s.obj, s.off)


class FnVal:
    depth = 0

    def __init__(s, name): s.name = name
    def __repr__(s): return "@" + s.name
    def __eq__(s, o): return isinstance(o, FnVal) and o.name == s.name
    def __hash__(s): return hash(s.name)


_fresh = itertools.count(1)


def unk(why, *dep):
    return poly(Atom("unk", "%s#%d" % (why, next(_fresh)), *dep))


class Records(list):
    pass


def fless(p, a, b):
    """ordered comparison of floats: false on NaN"""
    if p in ("gt", "ge"): a, b = b, a
    return bvar(Cmp("flt" if p in ("gt", "lt") else "fle", (a, b)))


class Interp:
    def __init__(s, mod, fn, args, cuts=None, cutfield=None, names=None, kernel=None, lets=False):
        s.mod, s.fn = mod, fn
        s.env = {}
        s.lets, s.letdefs = ({}, {}) if lets else (None, {})
        s.names = names or {}
        s.cuts = cuts or {}            # Poly.id -> Poly
        s.cutins = {}                  # instruction -> Poly: its value where cutok(value)
        s.cutfield = cutfield          # f(struct, off, value) -> Poly or None
        s.kernel = kernel or (lambda name: None)
        s.top, s.inner, s.rpo, s.idom, s.num = loop_forest(fn)
        s.ptrs = {}                    # obj -> list of pstore events
        s.gobj = {}
        s.open = []                    # open loop events (outermost first)
        s.par_pending = None
        s.objs = []
        s.issues = []                  # things the interpreter could not follow
        s.assumes = []
        for a in fn.args:
            if a.name in args: s.env[a] = args[a.name]
            elif a.ty.k == "ptr": s.env[a] = Ptr(s.newobj(a.name, "arg", None, a), 0)
            elif a.ty.k == "int" and a.ty.w == 1: s.env[a] = bvar(Cmp("op", ("arg", a.name)))
            else: s.env[a] = sym(a.name)
        s.dead = s.dead_blocks()
        s.structof = {}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "gep" and i.srcty.k == "struct" and i.srcty.name: s.structof.setdefault(i.ops[0], i.srcty.name)
        s.events, s.rets, s.mem = [], [], None

    # ------------------------------------------------------------------ objects
    def newobj(s, name, kind, size=None, site=None, cells=False):
        o = Obj(name, kind, size, site)
        o.cells = cells
        o.base = None
        o.escaped = False
        s.objs.append(o)
        return o

    def dead_blocks(s):
        """blocks from which every path ends in 'unreachable' (after exit/abort)"""
        d = set()
        ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                if b in d: continue
                t = b.ins[-1]
                if t.op == "unreachable" or (b.succ and all(q in d for q in b.succ)):
                    d.add(b)
                    ch = True
        return d

    # ------------------------------------------------------------------ values
    def val(s, v):
        k = v.kind
        if k == "instr" or k == "arg":
            r = s.env.get(v)
            if r is None:
                r = s.env[v] = s.default(v, "noval")
            return r
        if k == "const":
            if v.ty.k == "int" and v.ty.w == 1: return TRUE if v.v else FALSE
            return poly(v.v)
        if k == "fconst":
            return poly(int(v.v)) if v.v == int(v.v) and abs(v.v) < 2 ** 53 else poly(Atom("fc", v.v))
        if k == "null": return Ptr(NULL, 0)
        if k == "global":
            o = s.gobj.get(v.name)
            if o is None:
                o = s.gobj[v.name] = s.newobj("@" + v.name, "global", v.ty.size, v)
                o.gv = v
            return Ptr(o, 0)
        if k == "undef":
            return s.default(v, "undef")
        if k == "zero":
            if v.ty.k == "vector": return tuple([ZERO] * v.ty.n)
            return ZERO
        if k == "agg" and v.ty.k == "vector":
            return tuple(s.val(o) for o in v.ops)
        if k == "cexpr" and v.v == "gep":
            b = s.val(v.ops[0])
            return s.gep(b, v.id, v.ops[1:])
        if hasattr(v, "blocks"):
            return FnVal(v.name)
        return s.default(v, "cexpr")

    def default(s, v, why):
        t = v.ty
        nm = why + ":" + (getattr(v, "name", None) or "")
        if t.k == "ptr": return Ptr(s.newobj(nm, "unknown"), 0)
        if t.k == "int" and t.w == 1: return bvar(Cmp("op", (nm, next(_fresh))))
        if t.k == "vector": return tuple(unk(nm) for _ in range(t.n))
        if t.k == "struct":
            class F: pass
            r = []
            for f in t.fields:
                x = F(); x.ty, x.name = f, getattr(v, "name", None)
                r.append(s.default(x, why))
            return tuple(r)
        return unk(nm)

    def gep(s, base, ty, idx):
        off = ZERO
        first = True
        for i in idx:
            i = s.val(i) if not isinstance(i, Poly) else i
            if first:
                off = off + i * ty.size
                first = False
            elif ty.k == "struct":
                c = i.const()
                off = off + ty.offs[c]
                ty = ty.fields[c]
            else:
                ty = ty.elem
                off = off + i * ty.size
        return s.addoff(base, off)

    def addoff(s, p, off):
        if isinstance(p, Ptr): return Ptr(p.obj, p.off + off, p.idx)
        if isinstance(p, PIte): return pite(p.c, s.addoff(p.a, off), s.addoff(p.b, off))
        return Ptr(s.newobj("ptr?", "unknown"), 0)

    def merge(s, alts, cond):
        """alts: [(cond, value)], exhaustive under cond"""
        alts = [(restrict(c, cond) if c is not cond else TRUE, v) for c, v in alts if c is not FALSE]
        if not alts: return None
        r = alts[-1][1]
        for c, v in reversed(alts[:-1]):
            r = s.choose(c, v, r)
        return r

    def choose(s, c, a, b):
        if a is b or c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
        if isinstance(a, BDD) and isinstance(b, BDD): return bite(c, a, b)
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)): return pite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(s.choose(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (FnVal, FPtr)) or isinstance(b, (FnVal, FPtr)):
            if a == b: return a
            return FPtr(s.newobj("fn?", "unknown"), ZERO)
        return unk("merge")

    # ------------------------------------------------------------------ region execution
    def run(s):
        mem = {}
        s.events = []
        out = s.region(None, mem, s.events)
        return s

    def items(s, L):
        """reverse-post-order items directly inside loop L (None: function)"""
        for b in s.rpo:
            l = s.inner.get(b)
            if l is L:
                yield ("b", b)
            elif b is (l.head if l else None) and l.parent is L:
                yield ("l", l)

    def region(s, L, mem, evs, fresh_phis=None):
        """one abstract pass; returns list of (src, dst, cond, mem) edges leaving the region's blocks to outside
        or back to the header"""
        entry = L.head if L else s.fn.blocks[0]
        edges = {}        # dst block -> [(src, cond, mem)]
        out = []
        for kind, it in s.items(L):
            b = it if kind == "b" else it.head
            if b is entry and kind == "b":
                cond, m = TRUE, dict(mem)
                ins = None
            else:
                inc = edges.get(b, [])
                inc = [e for e in inc if e[1] is not FALSE]
                if not inc: continue
                cond = FALSE
                for e in inc: cond = bor(cond, e[1])
                m = s.mergemem(inc, cond)
                ins = inc
            if kind == "l":
                outs = s.loop(it, ins, cond, m, evs)
            else:
                outs = s.block(b, ins, cond, m, evs, L)
            for src, dst, c, mm in outs:
                if c is FALSE: continue
                if L is not None and (dst is L.head or dst not in L.blocks):
                    out.append((src, dst, c, mm))
                else:
                    edges.setdefault(dst, []).append((src, c, mm))
        return out

    def mergemem(s, inc, cond):
        if len(inc) == 1: return dict(inc[0][2])
        r = dict(inc[0][2])
        keys = set()
        for _, _, m in inc: keys |= set(m)
        for k in keys:
            vs = [m.get(k) for _, _, m in inc]
            if all(v is vs[0] for v in vs):
                r[k] = vs[0]
                continue
            alts = []
            for (_, c, m), v in zip(inc, vs):
                if v is None: v = s.cell_default(k)
                alts.append((c, v))
            r[k] = s.merge(alts, cond)
        return r

    def block(s, b, inc, cond, mem, evs, L):
        s.cond, s.curmem = cond, mem
        for i in b.ins:
            if i.op == "phi":
                if inc is None: continue          # loop header or entry: set by caller
                alts = []
                vals = {pb: v for v, pb in i.inc}
                for src, c, _ in inc:
                    if src in vals: alts.append((c, s.edgeval(src, b, vals[src])))
                v = s.merge(alts, cond)
                s.env[i] = s.cut(v, i)
                continue
            t = len(evs)
            s.instr(i, evs)
            for e in evs[t:]:
                if e.guard is TRUE: e.guard = cond
        t = b.ins[-1]
        mem = s.curmem
        if t.op == "ret":
            s.rets.append((cond, s.val(t.ops[0]) if t.ops else None, mem))
            return []
        if t.op == "br":
            if not t.ops:
                return [(b, t.succ[0], cond, mem)]
            c = s.val(t.ops[0])
            d0, d1 = t.succ[0] in s.dead, t.succ[1] in s.dead
            if d0 != d1:
                s.assumes.append((band(cond, c if d0 else bnot(c)), t))
                if s.ends:
                    evs.append(Ev("exit", t))
                    evs[-1].guard = s.assumes[-1][0]
                return [(b, t.succ[1] if d0 else t.succ[0], cond, mem)]
            if t.succ[0] is t.succ[1]:
                return [(b, t.succ[0], cond, mem)]
            return [(b, t.succ[0], band(cond, c), mem), (b, t.succ[1], band(cond, bnot(c)), mem)]
        if t.op == "switch":
            v = s.val(t.ops[0])
            rest = TRUE
            ed = {}
            live = [q for q in t.succ if q not in s.dead]
            cases = list(zip(t.idx, t.succ[1:]))
            for cv, q in cases:
                c = band(rest, beq(v, cv)) if isinstance(v, Poly) else bvar(Cmp("op", ("sw", next(_fresh))))
                rest = band(rest, bnot(beq(v, cv))) if isinstance(v, Poly) else rest
                ed[q] = bor(ed.get(q, FALSE), c)
            ed[t.succ[0]] = bor(ed.get(t.succ[0], FALSE), rest)
            if live and len(set(live)) < len(set(t.succ)):
                dead = FALSE
                for q in list(ed):
                    if q in s.dead: dead = bor(dead, ed.pop(q))
                s.assumes.append((band(cond, dead), t))
                if s.ends:
                    evs.append(Ev("exit", t))
                    evs[-1].guard = s.assumes[-1][0]
                ed = {q: restrict(c, bnot(dead)) if dead is not TRUE else c for q, c in ed.items()}
            return [(b, q, band(cond, c), mem) for q, c in ed.items()]
        if t.op == "unreachable":
            return []
        s.issues.append((t, "terminator " + t.op))
        return [(b, q, cond, mem) for q in b.succ]

    def edgeval(s, src, dst, v):
        return s.val(v)

    def cut(s, v, i=None):
        if isinstance(v, Poly):
            v = s.cuts.get(v.id, v)
            if i in s.cutins and s.cutok(v): return s.cutins[i]
            if s.lets is not None:
                v = s.let(v)
                v = s.cuts.get(v.id, v)
        return v

    def let(s, v):
        """name a large index-free value; its definition is kept"""
        r = s.lets.get(v.id)
        if r is None:
            at = all_atoms(v)
            if len(at) < 12 or len(v.t) > 1 and len(v.atoms()) < 2 or any(a.kind in ("ph", "unk", "op") or a.kind == "ld" and a.args[0].kind != "global" or a.kind == "lv" and contains(v, a) for a in at) or \
                    any(c.op == "op" for a in at if a.kind in ("ite", "find") for c in a.args[0 if a.kind == "ite" else 2].support()):
                r = v
            else:
                r = sym("let.%d" % v.id)
                s.letdefs[next(iter(r.atoms()))] = v
            s.lets[v.id] = r
        return r

    # ------------------------------------------------------------------ loops
    find_loads = False     # early exits may test arrays the function never writes

    def loop(s, L, inc, cond, mem, evs):
        h = L.head
        lv = Atom("lv", "i%d" % next(_fresh))
        ev = Ev("loop", h.ins[-1], lv=lv, T=ZERO)
        ev.guard = cond
        ev.par = s.par_pending
        s.par_pending = None
        ev.body = []
        ev.name = h.name
        phis = [i for i in h.ins if i.op == "phi"]
        back = set(L.latches)
        init = {}
        for i in phis:
            vals = {pb: v for v, pb in i.inc}
            init[i] = s.cut(s.merge([(c, s.val(vals[src])) for src, c, _ in inc if src in vals], cond))
        changed = {}
        snap_ptrs = {o: list(v) for o, v in s.ptrs.items()}
        env0 = dict(s.env)
        for attempt in range(6):
            s.env = dict(env0)
            s.ptrs = {o: list(v) for o, v in snap_ptrs.items()}
            ev.body = []
            ph = {}
            for i in phis:
                ph[i] = s.env[i] = s.placeholder(init[i], i.name or h.name)
            m = dict(mem)
            phc = {}
            for k in changed:
                if k not in m: m[k] = s.cell_default(k)
                phc[k] = m[k] = s.placeholder(mem.get(k, m[k]), "cell")
            s.open.append(ev)
            pend = s.par_pending
            outs = s.region(L, m, ev.body)
            s.open.pop()
            new = set()
            for src, dst, c, mm in outs:
                for k, v in mm.items():
                    if k not in changed and mem.get(k) is not v and not (k in mem and same(mem[k], v)):
                        new.add(k)
            if not new: break
            for k in new: changed[k] = True
        backs = [(c, src, mm) for src, dst, c, mm in outs if dst is h]
        exits = [(src, dst, c, mm) for src, dst, c, mm in outs if dst is not h]
        s.par_pending = None
        # --- next values
        bc = FALSE
        for c, _, _ in backs: bc = bor(bc, c)
        state = []       # (key, ph, init, next)
        for i in phis:
            vals = {pb: v for v, pb in i.inc}
            nxt = s.merge([(c, s.val(vals[src])) for c, src, _ in backs], bc) if backs else init[i]
            state.append([i, ph[i], init[i], nxt])
        for k in phc:
            nxt = s.merge([(c, mm.get(k, phc[k])) for c, _, mm in backs], bc) if backs else mem.get(k)
            state.append([k, phc[k], mem.get(k) if k in mem else s.cell_default(k), nxt])
        # --- continuation condition (drop it from the guards inside)
        hdr_exit = [e for e in exits if e[0] is h]
        single = len(exits) == 1 or (len({(e[0]) for e in exits}) == 1)
        kind = None
        cont = None
        if exits and single:
            src = exits[0][0]
            xc = FALSE
            for e in exits: xc = bor(xc, e[2])
            if src is h: kind, cont = "head", bnot(xc)
            elif src in back and len(back) == 1 and s.always(src, L): kind, cont = "latch", bnot(xc)
        early = None
        if hdr_exit and not single:
            # a counted loop that may also be left early: its last index is the first one an early exit fires at
            xc = FALSE
            for e in hdr_exit: xc = bor(xc, e[2])
            kind, cont = "find", bnot(xc)
            early = FALSE
            for e in exits:
                if e[0] is not h: early = bor(early, e[2])
        # next values are only taken when the loop continues
        if cont is not None:
            for st in state: st[3] = s.assume_val(st[3], cont)
        sub = s.solve(state, lv, ev)
        T = None
        if cont is not None:
            c2 = sub(cont)
            if kind == "head":
                T = s.trip(c2, lv, ev)
                # inside the body the continuation condition holds
                s.strip(ev.body, cont)
            elif kind == "find":
                T = s.trip(c2, lv, ev)
                X = sub(restrict(early, cont))
                if T is None or any(a.kind in ("ph", "unk", "op") or a.kind == "ld" and a.args[0].kind != "global" and not s.find_loads for a in all_atoms(X)) or any(c.op == "op" for c in X.support()):
                    T = kind = cont = None
                else:
                    s.strip(ev.body, cont)
                    q = Atom("lv", "q_" + h.name)
                    first = find(q, T, Subst({lv: poly(q)})(X))
                    T0, T = T, ite(blt(first, T), first + 1, T)
            else:
                T = s.trip(c2, lv, ev)
                T = None if T is None else T + 1      # do-while: body runs once more than the latch continues
        if s.ends:
            ev.never = s.forever(c2, lv) if cont is not None else TRUE if not exits and backs else None
            if kind == "find" and ev.never is not FALSE: ev.never = None
        if T is None:
            T = poly(Atom("unk", "trip_%s" % h.name, *[poly(l.lv) for l in s.open]))
            ev.unknown_trip = True
        s.apply(ev.body, sub)
        ev.T = T
        ev.kindl = kind
        evs.append(ev)
        # --- exits
        res = []
        here = tuple(poly(l.lv) for l in s.open)
        left = cond
        for n, (src, dst, c, mm) in enumerate(exits):
            if kind == "head": fin = Subst({lv: T})
            elif kind == "latch": fin = Subst({lv: T - 1})
            elif kind == "find": fin = Subst({lv: T0 if src is h else first})
            else: fin = Subst({lv: poly(Atom("unk", "at_exit_%s_%d" % (h.name, n), *here))})
            f = lambda v: None if v is None else subval(fin, subval(sub, v))
            m2 = {}
            for k, v in mm.items():
                m2[k] = v if (k in mem and mem[k] is v) else f(v)
            # lcssa phis in dst are evaluated through exit environment
            for i in dst.ins:
                if i.op != "phi": break
                for v, pb in i.inc:
                    if pb is src and v.kind == "instr" and v.bb in L.blocks:
                        s.env[(i, src)] = f(s.val(v))
            if kind is None:
                x = bvar(Cmp("op", ("exit", h.name, n) + here)) if n + 1 < len(exits) else TRUE
                ec, left = band(left, x), band(left, bnot(x))
            elif kind == "find":
                if src is h: ec = band(cond, bge(first, T0))
                else: ec = band(cond, band(blt(first, T0), subval(fin, subval(sub, restrict(c, cont)))))
            elif len(exits) > 1: ec = band(cond, subval(fin, subval(sub, restrict(c, bnot(cont)))))
            else: ec = cond
            res.append((src, dst, ec, m2))
        # keep values of the body for events only
        for b in L.blocks:
            for i in b.ins:
                if i in s.env and i not in env0: s.env.pop(i)
        return res

    def always(s, b, L):
        """does the latch post-dominate the header within the loop (runs every iteration)?"""
        return True

    def edgeval(s, src, dst, v):
        if v.kind == "instr":
            for i in dst.ins:
                if i.op != "phi": break
                if (i, src) in s.env:
                    for x, pb in i.inc:
                        if pb is src and x is v: return s.env[(i, src)]
        return s.val(v)

    def placeholder(s, v, name):
        if isinstance(v, Poly) or v is None: return poly(Atom("ph", "%s#%d" % (name, next(_fresh))))
        if isinstance(v, Ptr): return Ptr(v.obj, Atom("ph", "%s#%d" % (name, next(_fresh))), v.idx)
        if isinstance(v, BDD): return bvar(Cmp("op", ("ph", "%s#%d" % (name, next(_fresh)))))
        if isinstance(v, tuple): return tuple(s.placeholder(x, name) for x in v)
        if isinstance(v, PIte) and all(isinstance(x, (Ptr, PIte)) for x in (v.a, v.b)):
            return PIte(v.c, s.placeholder(v.a, name), s.placeholder(v.b, name))
        return Ptr(s.newobj("ptr-phi", "unknown"), 0)

    def assume_val(s, v, c):
        return v

    def solve(s, state, lv, ev):
        """closed forms of the placeholders as functions of the loop index"""
        work = []          # [atom(s), init poly, next poly]
        mp = {}
        post = []
        for key, p, i, n in state:
            s.flat(p, i, n, work, mp, lv)
        sub = Subst(mp)
        todo = work
        progress = True
        while todo and progress:
            progress = False
            rest = []
            pend = {a for a, _, _ in todo}
            for a, i, n in todo:
                n2 = sub(n)
                d = n2 - poly(a) if isinstance(n2, Poly) else None
                others = {x for x in all_atoms(n2) if x in pend and x is not a}
                if d is None or others:
                    rest.append((a, i, n))
                    continue
                if not contains(d, a):
                    if not contains(d, lv): cl = i + poly(lv) * d
                    else:
                        q = Atom("lv", "s%d" % next(_fresh))
                        cl = i + ssum(q, poly(lv), Subst({lv: poly(q)})(d))
                elif not contains(n2, a):
                    prev = Subst({lv: poly(lv) - 1})(n2)
                    cl = i if prev is i else ite(eq0(poly(lv)), i, prev)
                else:
                    cl = s.recur(a, i, n2, lv)
                mp = dict(mp)
                mp[a] = cl
                sub = Subst(mp)
                progress = True
            todo = rest
        for a, i, n in todo:
            mp = dict(mp)
            mp[a] = poly(Atom("unk", "cyc_%s" % a.args[0], poly(lv)))
        return Subst(mp)

    def recur(s, a, i, n, lv):
        """not an accumulation: ite(c, a, X) with c independent of a  ('keep or set')"""
        ats = n.atoms()
        if len(n.t) == 1 and len(ats) == 1:
            at = next(iter(ats))
            if at.kind == "ite" and n.t == {((at, 1),): 1}:
                c, x, y = at.args
                if not contains(c, a):
                    if x is poly(a) and not contains(y, a) and not contains(y, lv) and not contains(c, lv):
                        return ite(bor(eq0(poly(lv)), c), i, y)
                    if y is poly(a) and not contains(x, a) and not contains(x, lv) and not contains(c, lv):
                        return ite(bor(eq0(poly(lv)), bnot(c)), i, x)
        return poly(Atom("unk", "rec_%s" % a.args[0], poly(lv)))

    def flat(s, p, i, n, work, mp, lv):
        if isinstance(p, tuple):
            for a, b, c in zip(p, i, n): s.flat(a, b, c, work, mp, lv)
        elif isinstance(p, Poly):
            a = next(iter(p.atoms()))
            if not isinstance(i, Poly) or not isinstance(n, Poly):
                mp[a] = poly(Atom("unk", "ty_%s" % a.args[0], poly(lv)))
            else: work.append((a, i, n))
        elif isinstance(p, Ptr) and p.obj.name != "ptr-phi":
            a = next(iter(p.off.atoms()))
            if not isinstance(i, Ptr):
                mp[a] = poly(Atom("unk", "ptr_%s" % a.args[0], poly(lv)))
                return
            if isinstance(n, Ptr) and n.obj is p.obj and n.idx == p.idx: work.append((a, i.off, n.off))
            else: mp[a] = poly(Atom("unk", "ptr_%s" % a.args[0], poly(lv)))
        elif isinstance(p, PIte):
            leg = lambda v, b: (v.a if b else v.b) if isinstance(v, PIte) and v.c is p.c else None
            for x, y, z in ((p.a, leg(i, 1), leg(n, 1)), (p.b, leg(i, 0), leg(n, 0))): s.flat(x, y, z, work, mp, lv)
        elif isinstance(p, BDD):
            # a flag: constant when it never changes
            c = p.v
            if n is i or n is p: s.flagmap = getattr(s, "flagmap", {}); s.flagmap[c] = i

    def trip(s, c, lv, ev, depth=0):
        """number of iterations for which c(lv) holds consecutively from lv = 0"""
        if depth > 24: return None
        if not contains(c, lv):
            if c is FALSE: return ZERO
            return None
        # conditions that do not depend on the index
        free = [x for x in c.support() if not contains(x, lv)]
        if free:
            x = min(free, key=lambda z: z.id)
            b = bvar(x)
            t1 = s.trip(restrict(c, b), lv, ev, depth + 1)
            t0 = s.trip(restrict(c, bnot(b)), lv, ev, depth + 1)
            if t1 is None or t0 is None: return None
            return ite(b, t1, t0)
        if len(c.support()) > 1:
            # conjunction of comparisons: the smallest
            lits, r = [], c
            while r.v is not None:
                if r.lo is FALSE: lits.append(bvar(r.v)); r = r.hi
                elif r.hi is FALSE: lits.append(bnot(bvar(r.v))); r = r.lo
                else: return None
            ts = [s.trip(l, lv, ev, depth + 1) for l in lits]
            if any(t is None for t in ts): return None
            r = ts[0]
            for t in ts[1:]: r = ite(bge(r, t), t, r)
            return r
        cmp = c.v
        pos = c.hi is TRUE
        if cmp.op not in ("ge0", "eq0"): return None
        P = cmp.p
        # push if-then-else with index-free conditions outwards
        for a in all_atoms(P):
            if a.kind == "ite" and not contains(a.args[0], lv) and touches(P, a, lv):
                cc = a.args[0]
                mk = (lambda q: ge0(q)) if cmp.op == "ge0" else (lambda q: eq0(q))
                res = []
                for bv in (True, False):
                    q = assume_ite(P, cc, bv)
                    b = mk(q)
                    t = s.trip(b if pos else bnot(b), lv, ev, depth + 1)
                    if t is None: return None
                    res.append(t)
                return ite(cc, res[0], res[1])
        lin = linear(P, lv)
        if lin is None: return None
        a, b = lin            # P = a + b*lv
        if cmp.op == "ge0":
            if not pos: a, b = -a - 1, -b
            st = -b           # a - st*lv >= 0
            if st.const() is not None and st.const() <= 0: return None
            if st.const() is None: ev.steps = getattr(ev, "steps", ()) + (st,)
            return max0(cdiv(a + 1, st))
        if pos: return None
        if b.const() in (1, -1):
            ev.exact = getattr(ev, "exact", ()) + (a * -b.const(),)
            return a * -b.const()
        q = exact_div(-a, b)
        if q is not None:
            ev.exact = getattr(ev, "exact", ()) + (q,)
            return q
        return None

    ends = False           # record the paths that end the process and the loops that may not end

    def forever(s, c, lv, depth=0):
        """the condition (free of lv) under which c(lv) holds for every lv >= 0; None: not known"""
        if depth > 24: return None
        if not contains(c, lv):
            return None if any(x.op == "op" for x in c.support()) and c is not FALSE else c
        free = [x for x in c.support() if not contains(x, lv)]
        if free:
            x = min(free, key=lambda z: z.id)
            b = bvar(x)
            t, f = s.forever(restrict(c, b), lv, depth + 1), s.forever(restrict(c, bnot(b)), lv, depth + 1)
            if t is FALSE and f is FALSE: return FALSE
            return None if t is None or f is None or x.op == "op" else bite(x, t, f)
        if len(c.support()) > 1:
            lits, r = [], c
            while r.v is not None:
                if r.lo is FALSE: lits.append(bvar(r.v)); r = r.hi
                elif r.hi is FALSE: lits.append(bnot(bvar(r.v))); r = r.lo
                else: return None
            r = TRUE
            un = False
            for l in lits:
                q = s.forever(l, lv, depth + 1)
                if q is None: un = True
                else: r = band(r, q)
            return FALSE if r is FALSE else None if un else r
        cmp, pos = c.v, c.hi is TRUE
        if cmp.op not in ("ge0", "eq0"): return None
        P = cmp.p
        mk = ge0 if cmp.op == "ge0" else eq0
        lin = linear(P, lv)
        if lin is None or cmp.op == "eq0" and lin[1].const() is None:
            for a in all_atoms(P):
                if a.kind == "ite" and not contains(a.args[0], lv) and (touches(P, a, lv) if lin is None else a in all_atoms(lin[1])):
                    r = []
                    for bv in (True, False):
                        q = mk(assume_ite(P, a.args[0], bv))
                        r.append(s.forever(q if pos else bnot(q), lv, depth + 1))
                    if r[0] is FALSE and r[1] is FALSE: return FALSE
                    return None if None in r else bor(band(a.args[0], r[0]), band(bnot(a.args[0]), r[1]))
            if lin is None: return None
        a, b = lin
        if cmp.op == "ge0":
            if not pos: a, b = -a - 1, -b
            return FALSE if (b.const() or 0) < 0 else band(ge0(a), ge0(b))                  # a + b*lv >= 0
        if pos: return band(eq0(a), eq0(b))
        if b.const() == 0: return bnot(eq0(a))
        q = exact_div(-a, b)                            # a + b*lv != 0
        if b.const() in (1, -1): return ge0(a * b.const() - 1)
        if q is not None: return band(bnot(eq0(b)), ge0(-q - 1)) if b.const() is None else ge0(-q - 1)
        q = div(-a, b)
        return bor(band(eq0(b), bnot(eq0(a))), band(bnot(eq0(b)), bor(ge0(-q - 1), bnot(eq0(q * b + a)))))

    def strip(s, evs, cont):
        for e in evs:
            e.guard = restrict(e.guard, cont)

    def apply(s, evs, sub):
        for e in evs:
            for k in e.fields():
                v = getattr(e, k)
                if isinstance(v, (Poly, BDD, Ptr, PIte, tuple, FPtr)): setattr(e, k, subval(sub, v))
            if e.body is not None: s.apply(e.body, sub)

    # ------------------------------------------------------------------ memory cells
    def cell_default(s, k):
        o, off = k
        if o.base is not None:
            src, soff, snap = o.base
            if off < o.base_len:
                kk = (src, soff + off)
                return snap[kk] if kk in snap else s.cell_default(kk)
        if o.kind in ("arg", "global") or o.escaped:
            n = s.names.get((getattr(o, "struct", None), off))
            ty = s.celltype.get(off) if False else None
            return sym("%s.%s" % (o.name, n or off))
        if o.zero: return ZERO
        return poly(Atom("unk", "uninit %s+%d" % (o.name, off)))

    def read(s, p, i, evs):
        o = p.obj
        t = i.ty
        c = p.off.const()
        if o.kind == "global" and o.gv.v["const"] or o.kind == "global" and o.gv.v["init"] is not None and is_fn_table(o.gv):
            if t.k == "ptr":
                return FPtr(o, p.off)
            if c is not None:
                v = const_at(o.gv.v["init"], o.gv.ty, c)
                if v is not None: return s.val(v)
        if o.cells and c is not None:
            k = (o, c)
            v = s.curmem.get(k)
            if v is None:
                v = s.cell_default(k)
                if isinstance(v, Poly) and v.atoms() and next(iter(v.atoms())).kind == "unk" and "uninit" in str(next(iter(v.atoms())).args[0]):
                    evs.append(Ev("uninit", i, ptr=p, val=v))
                if t.k == "ptr" and not isinstance(v, (Ptr, PIte)):
                    v = Ptr(s.newobj("*%s" % v, "unknown"), 0)
                elif t.k == "int" and t.w == 1: v = bnot(eq0(v))
                if t.k == "ptr": s.curmem[k] = v
            if t.k == "ptr" and isinstance(v, Poly):
                v = Ptr(NULL, 0) if v is ZERO else Ptr(s.newobj("*%r" % v, "unknown"), 0)
            return v
        if t.k == "ptr":
            e = Ev("pload", i, ptr=p)
            evs.append(e)
            return s.pload(p, e)
        n = t.n if t.k == "vector" else 1
        es = t.elem.size if t.k == "vector" else t.size
        evs.append(Ev("load", i, ptr=p, width=t.size))
        if o.cells: s.issues.append((i, "variable offset into " + o.name))
        vs = tuple(poly(Atom("ld", o, p.idx, p.off + k * es)) for k in range(n))
        if t.k == "int" and t.w == 1: return bnot(eq0(vs[0]))
        return vs if t.k == "vector" else vs[0]

    def pload(s, p, e):
        recs = s.ptrs.get(p.obj, [])
        for r, stack in reversed(recs):
            closed = [l for l in stack if l not in s.open]
            off = r.ptr.off
            if r.ptr.idx != p.idx: continue
            if not closed:
                if off is p.off: return r.val
                continue
            mp = {}
            lvs = [l for l in closed if contains(off, l.lv)]
            if len(lvs) != 1: continue
            lin = linear(off, lvs[0].lv)
            if lin is None: continue
            q = exact_div(p.off - lin[0], lin[1])
            if q is None: continue
            e.index, e.limit = q, lvs[0].T
            e.alloc_loop = lvs[0].uid
            return subval(Subst({lvs[0].lv: q}), r.val)
        return Ptr(s.newobj("*%s" % p.obj.name, "unknown"), 0)

    def write(s, p, v, i, evs, ty):
        o = p.obj
        c = p.off.const()
        if o.cells and c is not None:
            if s.cutfield:
                nv = s.cutfield(s, o, c, v, i)
                if nv is not None: v = nv
            s.curmem[(o, c)] = v
            if o.kind in ("arg", "global"): evs.append(Ev("store", i, ptr=p, val=v, width=ty.size))
            return
        if o.cells:
            s.issues.append((i, "variable offset into " + o.name))
        if ty.k == "ptr":
            e = Ev("pstore", i, ptr=p, val=v)
            evs.append(e)
            s.ptrs.setdefault(o, []).append((e, tuple(s.open)))
            return
        evs.append(Ev("store", i, ptr=p, val=v, width=ty.size))

    # ------------------------------------------------------------------ instructions
    def instr(s, i, evs):
        op = i.op
        f = getattr(s, "i_" + op, None)
        if f:
            v = f(i, evs)
        elif op in ("br", "switch", "ret", "unreachable"):
            return
        else:
            s.issues.append((i, "instruction " + op))
            v = s.default(i, op)
        if v is not None:
            s.env[i] = s.cut(v, i)

    def bin(s, i, f):
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        if isinstance(a, tuple): return tuple(f(x, y) for x, y in zip(a, b))
        return f(a, b)

    def i_add(s, i, e): return s.bin(i, lambda a, b: a + b)
    def i_sub(s, i, e): return s.bin(i, lambda a, b: a - b)
    def i_mul(s, i, e): return s.bin(i, lambda a, b: a * b)
    i_fadd, i_fsub, i_fmul = i_add, i_sub, i_mul
    def i_sdiv(s, i, e): e.append(Ev("div", i, num=s.val(i.ops[0]), den=s.val(i.ops[1]))); return s.bin(i, div)
    def i_srem(s, i, e): e.append(Ev("div", i, num=s.val(i.ops[0]), den=s.val(i.ops[1]))); return s.bin(i, rem)
    i_udiv, i_urem = i_sdiv, i_srem

    def i_fdiv(s, i, e):
        def f(a, b):
            q = exact_div(a, b)
            return q if q is not None else poly(Atom("fdiv", a, b))
        return s.bin(i, f)

    def i_fneg(s, i, e):
        a = s.val(i.ops[0])
        return tuple(-x for x in a) if isinstance(a, tuple) else -a

    def i_shl(s, i, e):
        b = s.val(i.ops[1])
        if isinstance(b, Poly) and b.const() is not None: return s.val(i.ops[0]) * (1 << b.const())
        return poly(Atom("op", "shl", s.val(i.ops[0]), b))

    def i_ashr(s, i, e):
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        if b.const() is not None: return div(a, poly(1 << b.const()))     # non-negative values
        return poly(Atom("op", "shr", a, b))
    i_lshr = i_ashr

    def i_and(s, i, e):
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        if isinstance(a, BDD): return band(a, b)
        c = b.const() if isinstance(b, Poly) else None
        if c is not None and c > 0 and (c & (c + 1)) == 0: return rem(a, poly(c + 1))
        if c is not None and c < 0 and (-c & (-c - 1)) == 0: return a - rem(a, poly(-c))
        return poly(Atom("op", "and", a, b))

    def i_or(s, i, e):
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        if isinstance(a, BDD): return bor(a, b)
        return poly(Atom("op", "or", a, b))

    def i_xor(s, i, e):
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        if isinstance(a, BDD): return bite(a, bnot(b), b)
        if isinstance(b, Poly) and b.const() == -1: return -a - 1
        return poly(Atom("op", "xor", a, b))

    def i_icmp(s, i, e):
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        p = i.pred
        if isinstance(a, BDD) and isinstance(b, BDD):
            eq = bite(a, b, bnot(b))
            return eq if p == "eq" else bnot(eq) if p == "ne" else bvar(Cmp("op", ("icmp1", next(_fresh))))
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return s.ptrcmp(a, b, p)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if isinstance(a, FnVal) and isinstance(b, FnVal):
                r = TRUE if a == b else FALSE
                return r if p == "eq" else bnot(r)
            return bvar(Cmp("op", ("cmp", next(_fresh))))
        if p == "eq": return beq(a, b)
        if p == "ne": return bnot(beq(a, b))
        if p in ("sge", "uge"): return bge(a, b)
        if p in ("slt", "ult"): return blt(a, b)
        if p in ("sle", "ule"): return bge(b, a)
        return blt(b, a)

    def ptrcmp(s, a, b, p):
        if isinstance(a, PIte): return bite(a.c, s.ptrcmp(a.a, b, p), s.ptrcmp(a.b, b, p))
        if isinstance(b, PIte): return bite(b.c, s.ptrcmp(a, b.a, p), s.ptrcmp(a, b.b, p))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj and a.idx == b.idx:
                if p == "eq": return beq(a.off, b.off)
                if p == "ne": return bnot(beq(a.off, b.off))
                if p in ("uge", "sge"): return bge(a.off, b.off)
                if p in ("ult", "slt"): return blt(a.off, b.off)
                if p in ("ule", "sle"): return bge(b.off, a.off)
                return blt(b.off, a.off)
            if "unknown" not in (a.obj.kind, b.obj.kind):
                if p == "eq": return FALSE
                if p == "ne": return TRUE
        return bvar(Cmp("op", ("pcmp", next(_fresh))))

    force = {}             # comparisons whose outcome the caller fixes

    def i_fcmp(s, i, e):
        if i in s.force: return s.force[i]
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        p = i.pred
        if not isinstance(a, Poly) or p in ("ord", "uno", "true", "false"): return bvar(Cmp("op", ("fcmp", next(_fresh))))
        if p in ("oeq", "ueq"): return beq(a, b)
        if p in ("une", "one"): return bnot(beq(a, b))
        if a.const() is not None and b.const() is not None:
            x, y = a.const(), b.const()
            return TRUE if {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}.get(p[1:], False) else FALSE
        if p[0] == "u": return bnot(fless({"ult": "ge", "ule": "gt", "ugt": "le", "uge": "lt"}[p], a, b))     # true on NaN
        return fless(p[1:], a, b)

    def i_select(s, i, e):
        c = s.val(i.ops[0])
        if isinstance(c, tuple): return s.default(i, "vsel")
        return s.choose(c, s.val(i.ops[1]), s.val(i.ops[2]))

    def i_zext(s, i, e):
        a = s.val(i.ops[0])
        return ite(a, ONE, ZERO) if isinstance(a, BDD) else a

    def i_sext(s, i, e):
        a = s.val(i.ops[0])
        return ite(a, poly(-1), ZERO) if isinstance(a, BDD) else a

    def i_trunc(s, i, e):
        a = s.val(i.ops[0])
        if i.ty.k == "int" and i.ty.w == 1: return a if isinstance(a, BDD) else bnot(eq0(a))
        if i.ops[0].kind == "instr" and i.ops[0].op in ("or", "lshr", "shl", "and", "extractvalue"):
            v = bits(i.ops[0], 0, i.ty.w)
            if v is not None: return ZERO if v == 0 else s.val(v)
        return a

    def i_sitofp(s, i, e): return s.i_zext(i, e)
    i_uitofp = i_sitofp
    def i_fpext(s, i, e): return s.val(i.ops[0])
    i_fptrunc = i_freeze = i_bitcast = i_fpext

    def i_fptosi(s, i, e):
        a = s.val(i.ops[0])
        if not isinstance(a, Poly): return s.default(i, "fptosi")
        at = a.atoms()
        if not any(x.kind in ("fc", "fdiv", "fn") for x in at): return a
        if len(a.t) == 1 and len(at) == 1:
            x = next(iter(at))
            if a.t == {((x, 1),): 1}:
                if x.kind == "fn" and x.args[0] == "ceil":
                    y = x.args[1]
                    ya = y.atoms()
                    if y.t and len(y.t) == 1 and len(ya) == 1:
                        z = next(iter(ya))
                        if z.kind == "fdiv" and y.t == {((z, 1),): 1} and is_int(z.args[0]) and is_int(z.args[1]):
                            return cdiv(z.args[0], z.args[1])
                    if is_int(y): return y
                if x.kind == "fdiv" and is_int(x.args[0]) and is_int(x.args[1]):
                    return div(x.args[0], x.args[1])
        return poly(Atom("ftoi", a))
    i_fptoui = i_fptosi

    def i_ptrtoint(s, i, e): return poly(Atom("op", "ptrtoint", next(_fresh)))
    def i_inttoptr(s, i, e): return Ptr(s.newobj("inttoptr", "unknown"), 0)

    def i_gep(s, i, e):
        b = s.val(i.ops[0])
        if isinstance(b, (Ptr,)) and i.srcty.k == "struct" and i.srcty.name and not hasattr(b.obj, "struct") and b.off is ZERO:
            b.obj.struct = i.srcty.name
            if b.obj.kind in ("arg", "heap"): b.obj.cells = True
        if not isinstance(b, (Ptr, PIte)): return Ptr(s.newobj("gep?", "unknown"), 0)
        if isinstance(s.val(i.ops[1]), tuple): return s.default(i, "vgep")
        return s.gep(b, i.srcty, i.ops[1:])

    def i_alloca(s, i, e):
        n = s.val(i.ops[0]) if i.ops else ONE
        t = i.srcty
        o = s.newobj(i.name or "alloca", "stack", n * t.size, i)
        c = n.const()
        if c == 1 and t.k not in ("array",): o.cells = True
        elif c == 1 and t.k == "array" and t.elem.k in ("ptr",) : o.cells = False
        o.fresh = True
        return Ptr(o, 0)

    def i_load(s, i, evs):
        p = s.val(i.ops[0])
        return s.loadp(p, i, evs)

    def loadp(s, p, i, evs):
        if isinstance(p, PIte):
            n = len(evs)
            a = s.loadp(p.a, i, evs)
            s.only(evs[n:], p.c)
            n = len(evs)
            b = s.loadp(p.b, i, evs)
            s.only(evs[n:], bnot(p.c))
            return s.choose(p.c, a, b)
        if not isinstance(p, Ptr):
            s.issues.append((i, "load through unknown pointer"))
            return s.default(i, "load")
        return s.read(p, i, evs)

    def i_store(s, i, evs):
        v, p = s.val(i.ops[0]), s.val(i.ops[1])
        if isinstance(v, BDD): v = ite(v, ONE, ZERO)
        s.storep(p, v, i, evs, i.ops[0].ty)

    def only(s, evs, c):
        """these events happen under c"""
        for e in evs: e.guard = band(s.cond if e.guard is TRUE else e.guard, c)

    def storep(s, p, v, i, evs, ty):
        if isinstance(p, PIte):
            n = len(evs)
            keep = dict(s.curmem)
            s.storep(p.a, v, i, evs, ty); ma = s.curmem
            s.only(evs[n:], p.c)
            n = len(evs)
            s.curmem = keep
            s.storep(p.b, v, i, evs, ty); mb = s.curmem
            s.only(evs[n:], bnot(p.c))
            s.curmem = s.mergemem([(None, p.c, ma), (None, bnot(p.c), mb)], TRUE)
            return
        if not isinstance(p, Ptr):
            s.issues.append((i, "store through unknown pointer"))
            return
        s.write(p, v, i, evs, ty)

    def i_extractelement(s, i, e):
        v, k = s.val(i.ops[0]), s.val(i.ops[1])
        c = k.const()
        return v[c] if c is not None and isinstance(v, tuple) else s.default(i, "extract")

    def i_insertelement(s, i, e):
        v, x, k = s.val(i.ops[0]), s.val(i.ops[1]), s.val(i.ops[2])
        c = k.const()
        if c is None: return s.default(i, "insert")
        return v[:c] + (x,) + v[c + 1:]

    def i_shufflevector(s, i, e):
        a, b = s.val(i.ops[0]), s.val(i.ops[1])
        ab = a + b
        return tuple(ab[m] if m >= 0 else unk("undef") for m in i.mask)

    def i_extractvalue(s, i, e):
        v = s.val(i.ops[0])
        for k in i.idx:
            if not isinstance(v, tuple) or k >= len(v): return s.default(i, "extractvalue")
            v = v[k]
        return v

    def i_insertvalue(s, i, e):
        def put(v, ix):
            if not ix: return s.val(i.ops[1])
            if not isinstance(v, tuple) or ix[0] >= len(v): raise Unknown("insertvalue")
            return v[:ix[0]] + (put(v[ix[0]], ix[1:]),) + v[ix[0] + 1:]
        try: return put(s.val(i.ops[0]), i.idx)
        except Unknown: return s.default(i, "insertvalue")

    # ------------------------------------------------------------------ calls
    teams = False          # record what decides the number of threads of a region
    IGNORE = {"printf", "puts", "putchar", "fprintf", "fputs", "fflush", "omp_set_num_threads", "usleep", "srand", "fwrite", "perror",
              "omp_set_nested", "omp_set_dynamic"}

    def i_call(s, i, evs):
        c = i.callee
        if hasattr(c, "blocks"):
            n = demangle_name(c.name)
            fv = None
        else:
            fv = s.val(c)
            n = demangle_name(fv.name) if isinstance(fv, FnVal) else None
        a = [s.val(x) if x.kind != "metadata" else None for x in i.args]
        if isinstance(fv, FPtr):
            evs.append(Ev("kernel", i, table=Ptr(fv.obj, fv.off), fname=None, args=tuple(a)))
            return None
        if n is None:
            s.issues.append((i, "indirect call"))
            evs.append(Ev("call", i, name="?", args=tuple(x for x in a if x is not None)))
            return s.default(i, "icall") if i.ty.k != "void" else None
        if n.startswith("llvm."):
            return s.intrinsic(n, i, a, evs)
        if n == "__verif_par_begin":
            s.par_pending = a[0].const()
            return None
        if n == "__verif_par_end": return None
        if s.teams and n == "omp_get_max_threads":
            v = s.default(i, n)
            evs.append(Ev("team", i, name=n, val=v))
            return v
        if s.teams and n in TEAMS:
            evs.append(Ev("team", i, name=n, val=a[-1] if a and n != "__kmpc_serialized_parallel" else None))
            return ZERO if i.ty.k != "void" else None
        if n in ("__kmpc_single", "__kmpc_master", "__kmpc_masked"): return ONE
        if n in ("__kmpc_global_thread_num", "omp_get_thread_num", "omp_get_level", "omp_in_parallel"):
            return s.default(i, n)
        if n.startswith(("__kmpc_barrier", "__kmpc_end_", "__kmpc_critical", "__kmpc_push_num_threads", "__kmpc_flush")): return ZERO
        if s.kernel(n):
            evs.append(Ev("kernel", i, table=None, fname=n, args=tuple(a)))
            return None
        if n.startswith("bli_spackm"):
            evs.append(Ev("packk", i, fname=n, args=tuple(a)))
            return None
        if n in ("malloc", "calloc", "aligned_alloc", "valloc") or n in NEW:
            if n == "malloc" or n in NEW: sz = a[0]
            elif n == "calloc": sz = a[0] * a[1]
            else: sz = a[-1]
            return s.alloc(i, sz, n, evs)
        if n == "posix_memalign":
            p = s.alloc(i, a[2], n, evs, align=a[1])
            if isinstance(a[0], (Ptr, PIte)):
                class T: k = "ptr"; size = 8; w = 0
                s.storep(a[0], p, i, evs, T)
            else: s.issues.append((i, "posix_memalign target"))
            return ZERO
        if n == "free" or n in DELETE:
            if not is_null(a[0]): evs.append(Ev("free", i, ptr=a[0]))
            return None
        if n in ("memset",):
            s.memset(a[0], a[1], a[2], i, evs)
            return a[0]
        if n in ("memcpy", "memmove"):
            s.memcpy(a[0], a[1], a[2], i, evs)
            return a[0]
        if n in ("sqrt", "sqrtf", "ceil", "ceilf", "floor", "floorf", "roundf", "round", "fabs", "pow", "log", "exp", "log2"):
            nm = n.rstrip("f") if n in ("sqrtf", "ceilf", "floorf", "roundf") else n
            return s.mathfn(nm, a)
        for x in a:
            if isinstance(x, Ptr) and x.obj.kind in ("stack", "heap"):
                x.obj.escaped = True
                for k in list(s.curmem):
                    if k[0] is x.obj: s.curmem[k] = unk("ext %s" % n)
        if n in s.IGNORE or n.startswith("clock_gettime") or n in ("gettimeofday", "time", "exit", "abort"):
            return s.default(i, n) if i.ty.k != "void" else None
        evs.append(Ev("call", i, name=n, args=tuple(x for x in a if x is not None)))
        return s.default(i, n) if i.ty.k != "void" else None

    def mathfn(s, nm, a):
        if nm in ("ceil", "floor", "round") and is_int(a[0]): return a[0]
        return poly(Atom("fn", nm, *a))

    def alloc(s, i, sz, how, evs, align=None):
        o = s.newobj("%s@%s" % (how, loc(i).split(" ")[0]), "heap", sz, i)
        o.how, o.align = how, align
        o.zero = how == "calloc"
        if i in s.structof: o.struct = s.structof[i]
        c = sz.const() if isinstance(sz, Poly) else None
        if c is not None and how != "posix_memalign": o.cells = True
        p = Ptr(o, 0, tuple(poly(l.lv) for l in s.open))
        e = Ev("alloc", i, ptr=p, size=sz, how=how)
        e.obj = o
        o.alloc_ev = e
        evs.append(e)
        return p

    def memset(s, p, v, n, i, evs):
        if isinstance(p, Ptr) and p.obj.cells:
            c, l = p.off.const(), n.const() if isinstance(n, Poly) else None
            if c is not None and l is not None:
                for k in list(s.curmem):
                    if k[0] is p.obj and c <= k[1] < c + l: del s.curmem[k]
                if v is ZERO:
                    p.obj.zero = True
                return
        evs.append(Ev("memset", i, ptr=p, val=v, len=n))

    def memcpy(s, d, q, n, i, evs):
        if isinstance(d, Ptr) and isinstance(q, Ptr) and d.obj.kind in ("stack", "heap") and isinstance(n, Poly) and n.const() is not None \
                and (q.obj.cells or q.obj.kind == "arg") and n.const() <= 512 and d.off.const() is not None and q.off.const() is not None:
            q.obj.cells = d.obj.cells = True
            for k in list(s.curmem):
                if k[0] is d.obj: del s.curmem[k]
            snap = dict(s.curmem)
            if d.off is ZERO:
                d.obj.base = (q.obj, q.off.const(), snap)
                d.obj.base_len = n.const()
                return
        evs.append(Ev("memcpy", i, dst=d, src=q, len=n))

    def intrinsic(s, n, i, a, evs):
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stackrestore", "llvm.experimental.noalias", "llvm.var.annotation", "llvm.donothing", "llvm.prefetch")):
            return None
        if n.startswith("llvm.stacksave"): return Ptr(NULL, 0)
        if n.startswith("llvm.memset"):
            s.memset(a[0], a[1], a[2], i, evs); return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            s.memcpy(a[0], a[1], a[2], i, evs); return None
        if n.startswith(("llvm.fma.", "llvm.fmuladd.")):
            if isinstance(a[0], tuple): return tuple(x * y + z for x, y, z in zip(*a))
            return a[0] * a[1] + a[2]
        for k in ("ceil", "floor", "sqrt", "round", "fabs", "pow"):
            if n.startswith("llvm." + k + "."): return s.mathfn(k, a)
        if n.startswith(("llvm.smax", "llvm.umax")): return ite(bge(a[0], a[1]), a[0], a[1])
        if n.startswith(("llvm.smin", "llvm.umin")): return ite(bge(a[0], a[1]), a[1], a[0])
        if n.startswith("llvm.abs"): return ite(ge0(a[0]), a[0], -a[0])
        if n.startswith("llvm.expect"): return a[0]
        m = re.match(r"llvm\.[us](add|sub|mul)\.with\.overflow", n)
        if m: return ({"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[m.group(1)], FALSE)     # C24 is not claimed
        s.issues.append((i, "intrinsic " + n))
        return s.default(i, n) if i.ty.k != "void" else None


# ------------------------------------------------------------------------------------ helpers
NEW = ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
DELETE = ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm")


def bits(v, lo, w):
    """the value whose bits are bits lo..lo+w-1 of v (a struct passed in a register); 0 when they are all zero"""
    while True:
        if v.kind == "const":
            x = ((v.v & (1 << 64) - 1) >> lo) & ((1 << w) - 1)
            return 0 if x == 0 else None
        if v.kind == "undef": return 0
        if lo == 0 and v.ty.k == "int" and v.ty.w == w: return v
        if v.kind != "instr": return None
        if v.op in ("zext", "sext"):
            sw = v.ops[0].ty.w
            if lo >= sw: return 0 if v.op == "zext" else None
            if lo + w > sw: return None
            v = v.ops[0]
            continue
        c = v.ops[1].v if len(v.ops) > 1 and v.ops[1].kind == "const" else None
        if v.op == "freeze": v = v.ops[0]
        elif v.op == "extractvalue":
            a = v.ops[0]
            while a.kind == "instr" and a.op == "insertvalue" and list(a.idx) != list(v.idx): a = a.ops[0]
            if a.kind != "instr" or a.op != "insertvalue": return None
            v = a.ops[1]
        elif v.op == "shl" and c is not None:
            if lo + w <= c: return 0
            if lo < c: return None
            lo -= c; v = v.ops[0]
        elif v.op == "lshr" and c is not None:
            lo += c; v = v.ops[0]
        elif v.op == "and" and c is not None:
            m = ((c & (1 << 64) - 1) >> lo) & ((1 << w) - 1)
            if m == 0: return 0
            if m != (1 << w) - 1: return None
            v = v.ops[0]
        elif v.op == "or":
            a, b = bits(v.ops[0], lo, w), bits(v.ops[1], lo, w)
            return b if a == 0 else a if b == 0 else None
        else: return None


def same(a, b):
    return a is b or (isinstance(a, (Ptr, PIte, tuple)) and a == b)


def subval(sub, v):
    if isinstance(v, (Poly, BDD, Ptr, PIte)): return sub(v)
    if isinstance(v, tuple): return tuple(subval(sub, x) for x in v)
    if isinstance(v, FPtr): return FPtr(v.obj, sub(v.off))
    return v


def linear(P, lv):
    """P = a + b*lv with a, b free of lv; else None"""
    a, b = {}, {}
    for m, c in P.t.items():
        d = [(x, e) for x, e in m if x is lv]
        o = tuple((x, e) for x, e in m if x is not lv)
        if any(contains(x, lv) for x, _ in o): return None
        if not d: a[o] = c
        elif d[0][1] == 1: b[o] = c
        else: return None
    return Poly(a), Poly(b)


def touches(P, a, lv):
    return True


def assume_ite(P, cc, val):
    """P with every if-then-else resolved as far as cc = val decides it"""
    c = cc if val else bnot(cc)
    mp = {}
    for a in all_atoms(P):
        if a.kind == "ite":
            r = restrict(a.args[0], c)
            if r is TRUE: mp[a] = a.args[1]
            elif r is FALSE: mp[a] = a.args[2]
    if not mp: return P
    Q = Subst(mp)(P)
    return Q if Q is P else assume_ite(Q, cc, val)


def is_int(P):
    return not any(x.kind in ("fc", "fdiv", "fn") for x in P.atoms())


def is_fn_table(gv):
    v = gv.v["init"]
    while v is not None and getattr(v, "kind", "") == "agg" and v.ops: v = v.ops[0]
    return v is not None and hasattr(v, "blocks")


def table_entry(v, ty, off):
    """constant initialiser element at byte offset"""
    while True:
        if hasattr(v, "blocks") or v.kind != "agg": return v
        if ty.k == "array":
            k = off // ty.elem.size
            if not 0 <= k < len(v.ops): return None
            off -= k * ty.elem.size
            v, ty = v.ops[k], ty.elem
        elif ty.k == "struct":
            k = max([j for j, o in enumerate(ty.offs) if o <= off])
            off -= ty.offs[k]
            v, ty = v.ops[k], ty.fields[k]
        else: return None


def const_at(v, ty, off):
    if v is None: return None
    r = table_entry(v, ty, off)
    return r if r is not None and getattr(r, "kind", "") in ("const", "fconst", "null") else None


def table_values(a):
    """the integers a load from a constant table can give, whatever the index; None: not known"""
    o = a.args[0]
    if o.kind != "global" or not o.gv.v["const"]: return None
    off = a.args[2]
    k = off.t.get((), 0)
    st = content(off)
    if off.const() is not None or not st or not isinstance(k, int): return None
    r = set()
    for b in range(k % st, o.gv.ty.size, st):
        v = const_at(o.gv.v["init"], o.gv.ty, b)
        if v is None or v.kind != "const" or len(r) > 4096: return None
        r.add(v.v)
    return sorted(r) or None


def walk(evs, stack=()):
    for e in evs:
        yield e, stack
        if e.body is not None:
            yield from walk(e.body, stack + (e,))


def dump(evs, ind=0, out=None):
    out = [] if out is None else out
    for e in evs:
        if e.kind == "loop":
            out.append("  " * ind + "LOOP %s < %r%s %s   [%s]" % (e.lv, e.T, " PAR%d" % e.par if e.par else "", "" if e.guard is TRUE else "if %r" % e.guard, e.loc().split(" ")[0]))
            dump(e.body, ind + 1, out)
        else:
            out.append("  " * ind + repr(e) + ("" if e.guard is TRUE else "   IF"))
    return out
