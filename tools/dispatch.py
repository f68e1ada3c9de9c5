"""C15: every value of the schedule enumeration is dispatched to its own implementation, anything else is rejected.

The enumeration, the parameters of its type and the fields of its type are taken from the debug information, so the
analysis follows the type, not names of variables.  Each function with such a parameter is summarised once per region
of the integer line that its comparisons can tell apart (the declared values and everything between and around them).
"""
import re
import typestate as T, interp as N, units as U, frontend as F, drivers as D, split
from frontend import Broken
from interp import loc
from expr import *

TAGS = {"KMN": ("KMN", "k_first"), "MKN": ("MKN", "m_first"), "NKM": ("NKM", "n_first")}


class Types:
    """debug-info types of the functions of a module"""

    def __init__(s, path):
        t = open(path).read()
        s.md = dict(re.findall(r"(?m)^!(\d+) = (?:distinct )?(!.*)$", t))
        s.sig = {}
        for m in re.finditer(r"(?m)^define [^@]*@([\w.$]+)\(.*!dbg !(\d+)", t):
            sp = s.md.get(m.group(2), "")
            ty = re.search(r"\btype: !(\d+)", sp)
            if not ty: continue
            l = re.search(r"types: !(\d+)", s.md[ty.group(1)])
            ks = re.findall(r"null|!(\d+)", s.md[l.group(1)]) if l else []
            s.sig[m.group(1)] = [s.name(k or None) for k in ks]

    def name(s, k):
        if k is None: return "void"
        v = s.md.get(k, "")
        m = re.search(r'name: "([^"]*)"', v)
        if m: return m.group(1)
        b = re.search(r"baseType: !(\d+)", v)
        n = s.name(b.group(1) if b else None)
        return n + "*" if "DW_TAG_pointer_type" in v else n

    def params(s, f, pred):
        """arguments of f whose type satisfies pred"""
        sg = s.sig.get(f.name, [])[1:]
        if len(sg) != len(f.args): return []
        return [a for a, t in zip(f.args, sg) if pred(t)]

    def ret(s, f): return (s.sig.get(f.name) or ["void"])[0]


def regions(vals):
    """one representative of every set of integers that comparisons with the values cannot tell apart"""
    r = set()
    for v in vals: r |= {v - 1, v, v + 1}
    return sorted(r | {-2 ** 31, 2 ** 31 - 1})


def constants(f, enum):
    """integer constants the function compares or switches on (small ones)"""
    r = set(enum.values())
    for b, i in U.instrs(f):
        if i.op == "switch": r |= {x for x in i.idx if isinstance(x, int) and abs(x) < 64}
        elif i.op == "icmp":
            for x in i.ops:
                if getattr(x, "kind", "") == "const" and isinstance(x.v, int) and abs(x.v) < 64: r.add(x.v)
    return r


def depends(f, arg):
    """branches of f whose condition is computed from arg"""
    seen, st, br = set(), [arg], []
    users = {}
    for b, i in U.instrs(f):
        for o in i.ops: users.setdefault(o, []).append(i)
    while st:
        v = st.pop()
        for i in users.get(v, ()):
            if i in seen: continue
            seen.add(i)
            if i.op in ("br", "switch"): br.append(i)
            elif i.op == "store": continue
            elif i.op in ("icmp", "zext", "sext", "trunc", "select", "phi", "and", "or", "xor", "add", "sub", "mul", "freeze"): st.append(i)
    return br


LETS = {}


def leaves(P, depth=16):
    """constants a conditional value can take; None in the set for anything else"""
    if not isinstance(P, Poly): return {None}
    c = P.const()
    if c is not None: return {c}
    for m, k in P.t.items():
        if len(P.t) == 1 and len(m) == 1 and m[0][1] == 1 and k == 1 and m[0][0] in LETS: return leaves(LETS[m[0][0]], depth)
    l = split.first_ite(P)
    if l is None or depth == 0: return {None}
    return leaves(split.under_lit(P, l, True), depth - 1) | leaves(split.under_lit(P, l, False), depth - 1)


def c15(rep):
    rep.technique = "per-value summaries of every function that takes a schedule, callee tags and reachability in the un-inlined call graph"
    mod, fs = T.program()
    ty = Types(T._prog["path"])
    enum = D.enum(T._prog["path"], "sched")
    lay = D.layouts(T._prog["path"])
    missing = [k for k in ("KMN", "MKN", "NKM", "NA") if k not in enum]
    if missing: raise Broken("schedule enumeration lacks %s" % missing)
    valid = {enum[k]: k for k in ("KMN", "MKN", "NKM")}
    if len(set(enum.values())) != len(enum):
        rep.violation("dispatch", "enum sched", "two schedules share one value: %r" % enum)
    names = {}
    for st, fl in lay.items():
        for o, n in fl.items(): names[("struct." + st, o)] = n
    picks = pickers({U.name(f) for f in fs if ty.ret(f) == "sched" and not ty.params(f, lambda t: t == "sched")})
    ndisp = 0
    for f in fs:
        ps = ty.params(f, lambda t: t == "sched")
        if len(ps) != 1: continue
        a = ps[0]
        nm = U.name(f)
        rep.count("functions taking a schedule")
        br = depends(f, a)
        selects = ty.ret(f) == "sched"
        stored = any(i.op == "store" and i.ops[0] is a for b, i in U.instrs(f))
        if not br and not stored and not any(a in i.ops for b, i in U.instrs(f)):
            rep.ok("schedule argument not consulted", nm)
            continue
        if br: ndisp += 1
        vals = regions(constants(f, enum))
        for v in vals:
            if not br and v not in enum.values(): continue
            rep.count("value regions analysed")
            it = N.Interp(mod, f, {a.name: poly(v)}, names=names, kernel=D.KERNEL, lets=True)
            try: it.run()
            except Exception as e:
                rep.undec("summary", "%s for schedule %d: %s" % (nm, v, str(e)[:100]))
                continue
            rets = [r for r in it.rets if r[0] is not FALSE]
            setlets(it)
            kinds = {e.kind for e, _ in N.walk(it.events) if e.kind not in ("alloc", "free", "loop")}
            here = short(f, br)
            if v in valid:
                if br and not rets:
                    rep.violation("valid schedule rejected", here, "%s never returns for schedule %s" % (nm, valid[v]))
                elif br and not selects and not kinds and ty.ret(f) == "void" and nm != "print_schedule" and "print" not in nm:
                    rep.violation("schedule ignored", here, "%s accepts schedule %s and returns without doing anything" % (nm, valid[v]))
                else: rep.ok("valid schedule accepted", "%s(%s)" % (nm, valid[v]))
                if selects:
                    got = set()
                    for r in rets: got |= leaves(r[1])
                    if got != {v}: rep.violation("schedule changed", here, "%s turns the requested schedule %s into %s" % (nm, valid[v], txt(got, enum)))
                    else: rep.ok("requested schedule kept", "%s(%s)" % (nm, valid[v]))
            elif v == enum["NA"]:
                if selects:
                    got = set()
                    for r in rets: got |= leaves(r[1])
                    if not got or not got <= set(valid): rep.violation("automatic selection", here, "%s can yield %s" % (nm, txt(got - set(valid) or got, enum)))
                    else: rep.ok("automatic selection yields a schedule", nm)
                elif br and nm in picks:
                    if not rets: rep.violation("automatic selection", here, "%s never returns when the schedule is to be chosen automatically" % nm)
                    else: rep.ok("automatic selection accepted", nm)
                elif br:
                    if rets: rep.violation("unknown schedule accepted", here, "%s returns normally for a schedule that was never chosen (NA)" % nm)
                    else: rep.ok("unchosen schedule rejected", nm)
            elif br and not selects:
                if rets and passed_on(it, ty, f, v, names): rep.ok("unknown schedule handed back unchanged", "%s(%d)" % (nm, v))
                elif rets: rep.violation("unknown schedule accepted", here, "%s returns normally for the schedule value %d" % (nm, v))
                else: rep.ok("unknown schedule rejected", "%s(%d)" % (nm, v))
            # a schedule that is recorded is the one that was asked for
            for fld in recorded(it, names):
                if v in valid:
                    got = leaves(fld)
                    if got - {v, None}: rep.violation("schedule changed", here, "%s records %s where %s was asked for" % (nm, txt(got - {v}, enum), valid[v]))
                    elif got == {v}: rep.ok("recorded schedule is the requested one", "%s(%s)" % (nm, valid[v]))
                    else: rep.undec("recorded schedule", "%s(%s)" % (nm, valid[v]))
                elif v == enum["NA"] and br:
                    got = leaves(fld)
                    if got - set(valid) - {None}: rep.violation("automatic selection", here, "%s can record %s" % (nm, txt(got - set(valid), enum)))
                    elif None not in got: rep.ok("automatic selection yields a schedule", nm)
                    else: rep.undec("recorded schedule", "%s(NA)" % nm)
    for f in fs:
        if ty.ret(f) != "sched" or ty.params(f, lambda t: t == "sched"): continue
        rep.count("selection functions")
        it = N.Interp(mod, f, {}, names=names, lets=True).run()
        setlets(it)
        got = set()
        for r in it.rets:
            if r[0] is not FALSE: got |= leaves(r[1])
        if None in got: rep.undec("automatic selection", U.name(f))
        elif not got or not got <= set(valid): rep.violation("automatic selection", short(f, []), "%s can yield %s" % (U.name(f), txt(got - set(valid) or got, enum)))
        else:
            rep.ok("automatic selection yields a schedule", "%s: %s" % (U.name(f), txt(got, enum)))
    tags(rep, enum, valid)
    rep.need("functions taking a schedule", 5)
    rep.need("selection functions", 1)
    if ndisp < 4: raise Broken("only %d functions dispatch on the schedule" % ndisp)


def setlets(it):
    LETS.clear()
    for a, v in it.letdefs.items(): LETS[a if not isinstance(a, Poly) else next(iter(a.atoms()))] = v


def short(f, br):
    for i in br:
        if i.op == "switch": return loc(i).split(" ")[0]
    return loc(br[0]).split(" ")[0] if br else U.name(f)


def txt(vals, enum):
    inv = {v: k for k, v in enum.items()}
    return "{%s}" % ", ".join(sorted(inv.get(v, "other" if v is None else str(v)) for v in vals))


def pickers(sel):
    """functions that choose for themselves when asked to: a selection function is called below them"""
    g = {}
    for u in U.load():
        for f in u.mod.funcs.values():
            for b, i in U.instrs(f) if f.blocks else ():
                if i.op == "call" and U.callee(i): g.setdefault(U.name(f), set()).add(U.callee(i))
    r = set(sel)
    ch = True
    while ch:
        ch = False
        for f, c in g.items():
            if f not in r and c & r:
                r.add(f)
                ch = True
    return r | {"cake_sgemm", "init_block_dims", "get_cache_dims"}


def passed_on(it, ty, f, v, names):
    """the result is an object that carries the very value to the caller"""
    if not ty.ret(f).endswith("*"): return False
    r = recorded(it, names)
    return bool(r) and all(leaves(x) == {v} for x in r)


def recorded(it, names):
    """final values of fields of the schedule type"""
    r = []
    for c, rv, mem in it.rets:
        if c is FALSE: continue
        for k, v in mem.items():
            if len(k) == 2 and names.get((getattr(k[0], "struct", "") or "", k[1])) == "sch" and isinstance(v, Poly) and v not in r: r.append(v)
    return r


# ------------------------------------------------------------------ un-inlined call graph
def tags(rep, enum, valid):
    """under each schedule only that schedule's own implementation is called"""
    n = 0
    for u in U.load():
        ty = Types(u.path)
        lay = D.layouts(u.path)
        for f in u.mod.funcs.values():
            if not f.blocks or "omp_outlined" in f.name: continue
            ps = ty.params(f, lambda t: t == "sched")
            flds = schfields(u, f, lay)
            if not ps and not flds: continue
            calls = {}
            for v, k in valid.items():
                calls[v] = reach(f, {**{p: v for p in ps}, **{x: v for x in flds}})
            common = set.intersection(*calls.values())
            if all(c == common for c in calls.values()): continue
            rep.count("dispatching functions in the call graph")
            spec = {}
            own = {v: {U.callee(i) for i in calls[v] - common if any(x in U.callee(i) for x in TAGS[k])} for v, k in valid.items()}
            for v, k in valid.items():
                bad = False
                if not own[v] and not calls[v] - common and all(own[w] for w in valid if w != v):
                    bad = True
                    rep.violation("schedule ignored", short(f, depends(f, ps[0]) if ps else []), "%s accepts schedule %s and returns without doing anything" % (U.name(f), k))
                for i in calls[v] - common:
                    t = U.callee(i)
                    spec.setdefault(v, set()).add(t)
                    tg = [q for q, ts in TAGS.items() if any(x in t for x in ts)]
                    if tg and k not in tg:
                        bad = True
                        rep.violation("wrong implementation", loc(i).split(" ")[0], "%s calls %s under schedule %s" % (U.name(f), t, k))
                if not bad:
                    n += 1
                    rep.ok("own implementation", "%s under %s: %s" % (U.name(f), k, ", ".join(sorted(spec.get(v, {"no specific call"})))))
    if n < 6: raise Broken("only %d schedule-specific call sets found" % n)


def schfields(u, f, lay):
    """loads of a schedule field"""
    r = []
    for b, i in U.instrs(f):
        if i.op == "load" and getattr(i.ops[0], "op", "") == "gep":
            g = i.ops[0]
            if g.srcty.k == "struct" and g.srcty.name and len(g.ops) == 3 and getattr(g.ops[2], "kind", "") == "const":
                st = g.srcty.name.split(".")[-1]
                if lay.get(st, {}).get(g.srcty.offs[g.ops[2].v]) == "sch": r.append(i)
    return r


def reach(f, known):
    """call instructions reachable when the given values are known (sparse conditional constant propagation)"""
    val = dict(known)          # value -> int, or TOP
    TOP = object()
    BOT = None

    def get(v):
        if getattr(v, "kind", "") == "const": return v.v
        if getattr(v, "kind", "") in ("arg",) and v not in val: return TOP
        return val.get(v, TOP if getattr(v, "kind", "") != "instr" else BOT)
    edges, live, calls = set(), set(), set()
    work = [(None, f.blocks[0])]
    again = True
    while work:
        e = work.pop()
        b = e[1]
        edges.add(e)
        live.add(b)
        ch = False
        for i in b.ins:
            if i in known: continue
            old = val.get(i, BOT)
            if i.op == "phi":
                vs = {x if (x := get(v)) is not None else BOT for v, pb in i.inc if (pb, b) in edges}
                vs.discard(BOT)
                new = TOP if TOP in vs or len(vs) > 1 else (vs.pop() if vs else BOT)
            elif i.op == "icmp":
                x, y = get(i.ops[0]), get(i.ops[1])
                new = TOP if x is TOP or y is TOP or x is BOT or y is BOT else int(
                    {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                     "ult": x % 2 ** 32 < y % 2 ** 32, "ule": x % 2 ** 32 <= y % 2 ** 32, "ugt": x % 2 ** 32 > y % 2 ** 32, "uge": x % 2 ** 32 >= y % 2 ** 32}[i.pred])
            elif i.op in ("zext", "sext", "trunc", "freeze"): new = get(i.ops[0])
            elif i.op in ("add", "sub", "mul", "and", "or", "xor"):
                x, y = get(i.ops[0]), get(i.ops[1])
                new = TOP if x in (TOP, BOT) or y in (TOP, BOT) else {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}[i.op]
            elif i.op == "select":
                c = get(i.ops[0])
                if c is TOP or c is BOT:
                    x, y = get(i.ops[1]), get(i.ops[2])
                    new = x if x == y else TOP
                else: new = get(i.ops[1] if c else i.ops[2])
            else: new = TOP
            if i.op == "call" and U.callee(i) and not U.callee(i).startswith("llvm."): calls.add(i)
            if new is not old and new != old:
                val[i] = new
                ch = True
        t = b.ins[-1]
        nxt = []
        if t.op == "br" and t.ops:
            c = get(t.ops[0])
            nxt = list(b.succ) if c is TOP or c is BOT else [t.succ[0] if c & 1 else t.succ[1]]
        elif t.op == "switch":
            c = get(t.ops[0])
            if c is TOP or c is BOT: nxt = list(b.succ)
            else: nxt = [t.succ[1 + t.idx.index(c)] if c in t.idx else t.succ[0]]
        else: nxt = list(b.succ)
        for q in nxt:
            if (b, q) not in edges or ch: 
                if (b, q) not in edges: work.append((b, q))
                elif ch and q in live: work.append((b, q)) if not any(w[1] is q for w in work) else None
    return calls
