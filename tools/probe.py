"""C19: probing the machine."""
import itertools, re
import typestate as T, interp as N, units as U, frontend as F
from frontend import Broken
from interp import loc
from expr import *
from prover import Ctx
from split import prove_ge
from ev import Eval, free_atoms, Opaque
import drivers as D
import resources as R

READERS = {"strlen", "atoi", "atol", "atof", "atoll", "strtol", "__isoc23_strtol", "strtoul", "__isoc23_strtoul", "strtod", "strtof", "strtoll", "__isoc23_strtoll", "strcmp", "strncmp",
           "strstr", "strchr", "strrchr", "strcspn", "strspn", "strpbrk", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "puts", "strdup", "strtok", "popen", "system", "strcasecmp"}


def chararrays(fn):
    r = {}
    for b, i in U.instrs(fn):
        if i.op == "alloca" and i.srcty.k == "array" and i.srcty.elem.k == "int" and i.srcty.elem.w == 8: r[i] = i.srcty.n
    return r


def cstr(v):
    """text of a constant string operand"""
    w, off, _ = T.root(v)
    if getattr(w, "kind", "") == "global" and w.v.get("const") and w.v.get("init") is not None and off == 0:
        ini = w.v["init"]
        if ini.kind == "agg" and all(o.kind == "const" for o in ini.ops): return bytes((o.v & 255) for o in ini.ops).split(b"\0")[0].decode("latin1")
        if ini.kind == "zero": return ""
        s = F_text.get(w.name)
        if s is not None: return s
    return None


F_text = {}


def load_strings(path):
    """constant strings of the module (c\"...\" initialisers)"""
    for m in re.finditer(r'(?m)^@([\w.$]+) = .*?constant \[(\d+) x i8\] (?:c"((?:[^"\\]|\\.)*)"|zeroinitializer)', open(path).read()):
        t = m.group(3) or ""
        F_text[m.group(1)] = re.sub(r"\\([0-9A-Fa-f]{2})", lambda q: chr(int(q.group(1), 16)), t).split("\0")[0]


def fmtlen(fmt, args, size):
    """largest length sprintf can produce, or None"""
    n, k, a = 0, 0, list(args)
    for m in re.finditer(r"%([-+ 0#]*)(\d*|\*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsfegpn%])|([^%]+)", fmt):
        if m.group(6) is not None:
            n += len(m.group(6))
            continue
        c = m.group(5)
        if c == "%":
            n += 1
            continue
        v = a.pop(0) if a else None
        w = int(m.group(2) or 0) if m.group(2) != "*" else 10 ** 6
        if c in "di": l = 20 if m.group(4) in ("l", "ll", "z", "j", "t") else 11
        elif c in "ouxX": l = 24 if m.group(4) in ("l", "ll", "z", "j", "t") else 12
        elif c == "c": l = 1
        elif c == "p": l = 18
        elif c == "s":
            t = cstr(v) if v is not None else None
            if t is not None: l = len(t)
            elif v is not None and T.root(v)[0] in size: l = size[T.root(v)[0]] - 1
            elif m.group(3): l = int(m.group(3))
            else: return None
        else: l = 330
        n += max(l, w)
    return n


class Text:
    """forward analysis of the text buffers of one function: is the buffer a terminated string yet?"""

    def __init__(s, fn, rep):
        s.fn, s.rep = fn, rep
        s.size = chararrays(fn)
        s.bad = []
        s.nread = s.nwrite = 0
        s.run()

    def flag(s, rule, i, text):
        k = (rule, loc(i).split(" ")[0])
        if k not in [(r, w) for r, w, _ in s.bad]: s.bad.append((rule, loc(i).split(" ")[0], text))

    def buf(s, v):
        w, off, _ = T.root(v)
        return (w, off) if w in s.size else (None, None)

    def step(s, st, i, chk):
        o = i.op
        if o == "store":
            b, off = s.buf(i.ops[1])
            if b is not None:
                v = i.ops[0]
                w = v.ty.size
                if off is not None and chk and not 0 <= off <= s.size[b] - w: s.flag("text overflow", i, "%s: writes byte %d of the %d-byte buffer %s" % (U.name(s.fn), off, s.size[b], b.name))
                z = getattr(v, "kind", "") in ("const", "null", "zero") and (v.kind != "const" or (v.v & 255) == 0 or w > 1 and any(((v.v >> (8 * k)) & 255) == 0 for k in range(w)))
                if off == 0 and z: st = {**st, b: "V"}
        elif o == "load":
            b, off = s.buf(i.ops[0])
            if b is not None and i.ty.k == "int": s.read(st, b, i, "read", chk)
        elif o == "call":
            n = T.callname(i) or "?"
            a = i.args
            if n.startswith("llvm.lifetime.start"):
                b, _ = s.buf(a[1])
                if b is not None: st = {**st, b: "U"}
            elif n.startswith(("llvm.memset", "memset")):
                b, off = s.buf(a[0])
                if b is not None:
                    if off is None or a[2].kind != "const" or off + a[2].v > s.size[b]:
                        if chk: s.flag("text overflow", i, "%s: clears past the end of %s" % (U.name(s.fn), b.name))
                    if T.iszero(a[1]): st = {**st, b: "V"}
                    s.nwrite += chk
            elif n.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")):
                b, off = s.buf(a[0])
                if b is not None:
                    if chk and (off is None or a[2].kind != "const" or off + a[2].v > s.size[b]): s.flag("text overflow", i, "%s: copies past the end of %s" % (U.name(s.fn), b.name))
                    t = cstr(a[1])
                    if t is not None and a[2].kind == "const" and a[2].v > len(t): st = {**st, b: "V"}
                    s.nwrite += chk
            elif n in ("fgets", "snprintf", "vsnprintf", "fread", "read", "strncpy", "fgets_unlocked", "__fgets_chk"):
                b, off = s.buf(a[0])
                if b is not None:
                    k = {"fgets": 1, "snprintf": 1, "vsnprintf": 1, "fread": 2, "read": 2, "strncpy": 2}.get(n, 1)
                    sz = a[k]
                    m = sz.v if sz.kind == "const" else None
                    if n == "fread": m = m * a[1].v if m is not None and a[1].kind == "const" else None
                    if chk:
                        s.nwrite += 1
                        if m is None or off is None: s.rep.undec("text buffer size", "%s: %s with a computed size" % (loc(i).split(" ")[0], n))
                        elif not 0 <= off <= s.size[b] - m: s.flag("text overflow", i, "%s: %s may write %d bytes at %d of the %d-byte buffer %s" % (U.name(s.fn), n, m, off, s.size[b], b.name))
                        else: s.rep.ok("writes into text buffers fit", "%s at %s: %d <= %d" % (n, loc(i).split(" ")[0], m, s.size[b]))
                    if n == "fgets": st = {**st, b: ("P", st.get(b, "U") if not isinstance(st.get(b), tuple) else st[b][1], i.n)}
                    elif n in ("snprintf", "vsnprintf"): st = {**st, b: "V"}
                elif n == "fgets" and chk: s.rep.undec("text buffer size", "%s: fgets into a buffer of unknown size" % loc(i).split(" ")[0])
            elif n in ("sprintf", "strcpy", "strcat", "stpcpy", "gets"):
                b, off = s.buf(a[0])
                if b is not None:
                    if n == "sprintf":
                        f = cstr(a[1])
                        m = fmtlen(f, a[2:], s.size) if f is not None else None
                    elif n == "gets": m = None
                    else:
                        t = cstr(a[1])
                        src = s.buf(a[1])[0]
                        m = len(t) if t is not None else s.size[src] - 1 if src is not None else None
                        if n == "strcat" and m is not None: m += s.size[b]
                    if chk:
                        s.nwrite += 1
                        if m is None: s.flag("text overflow", i, "%s: %s writes a text of unbounded length into the %d-byte buffer %s" % (U.name(s.fn), n, s.size[b], b.name))
                        elif (off or 0) + m + 1 > s.size[b]: s.flag("text overflow", i, "%s: %s may write %d bytes into the %d-byte buffer %s" % (U.name(s.fn), n, m + 1, s.size[b], b.name))
                        else: s.rep.ok("writes into text buffers fit", "%s at %s: %d <= %d" % (n, loc(i).split(" ")[0], m + 1, s.size[b]))
                    st = {**st, b: "V"}
            if n in READERS or n in ("printf", "fprintf", "sprintf", "snprintf", "strcpy", "strcat"):
                for k, x in enumerate(a):
                    if x.kind == "metadata" or x.ty.k != "ptr": continue
                    if n in ("sprintf", "snprintf", "strcpy") and k == 0: continue
                    b, off = s.buf(x)
                    if b is not None: s.read(st, b, i, "given to %s" % n, chk)
                if n in ("strtok",):
                    b, _ = s.buf(a[0])
        return st

    def read(s, st, b, i, how, chk):
        if not chk: return
        s.nread += 1
        x = st.get(b, "U")
        if isinstance(x, tuple): x = x[1]
        if x != "V": s.flag("text unset", i, "%s: buffer %s is %s on a path where nothing was written to it" % (U.name(s.fn), b.name, how))
        else: s.rep.ok("text buffers are filled before they are read", "%s %s at %s" % (b.name, how, loc(i).split(" ")[0]))

    def edge(s, st, b, q):
        t = b.ins[-1]
        if t.op != "br" or not t.ops or t.succ[0] is t.succ[1]: return st
        r = s.fgets_test(t.ops[0])
        if r is None: return st
        call, nulltrue = r
        ok = (q is t.succ[0]) != nulltrue
        out = dict(st)
        for k, v in st.items():
            if isinstance(v, tuple) and v[2] == call: out[k] = "V" if ok else v[1]
        return out

    def fgets_test(s, c, neg=False):
        if getattr(c, "op", "") == "xor": 
            r = s.fgets_test(c.ops[0])
            return (r[0], not r[1]) if r else None
        if getattr(c, "op", "") == "icmp" and c.pred in ("eq", "ne"):
            a, b = c.ops
            if T.isnull(a): a, b = b, a
            if T.isnull(b) and getattr(a, "op", "") == "call" and T.callname(a) == "fgets": return a.n, c.pred == "eq"
        return None

    def merge(s, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k, "U"), b.get(k, "U")
            if x == y: out[k] = x
            else:
                x, y = (z[1] if isinstance(z, tuple) else z for z in (x, y))
                out[k] = "V" if x == y == "V" else "U"
        return out

    def run(s):
        _, _, rpo, _, _ = N.loop_forest(s.fn)
        inn = {s.fn.blocks[0]: {}}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b not in inn: continue
                st = inn[b]
                for i in b.ins: st = s.step(st, i, 0)
                for q in b.succ:
                    x = s.edge(st, b, q)
                    n = x if q not in inn else s.merge(inn[q], x)
                    if n != inn.get(q):
                        inn[q] = n
                        ch = True
        for b in rpo:
            if b not in inn: continue
            st = inn[b]
            for i in b.ins: st = s.step(st, i, 1)


FIELDS = ("L1", "L2", "L3", "ncores", "mr", "nr")


class PInterp(N.Interp):
    """adds the range of strlen & co. over a buffer of known size"""

    def i_call(s, i, evs):
        c = i.callee
        n = F.demangle_name(c.name) if hasattr(c, "blocks") else None
        if n in ("strlen", "strcspn", "strspn", "strnlen") and s.sizes.get(T.root(i.args[0])[0]):
            w, off, _ = T.root(i.args[0])
            if off is not None:
                v = poly(Atom("unk", "%s:%s@%s" % (n, w.name, loc(i).split(" ")[0]), N.next(N._fresh) if False else i.n))
                s.ranges[next(iter(v.atoms()))] = s.sizes[w] - 1 - off
                return v
        return super().i_call(i, evs)


def concretise(atoms, ranges, consts, limit=6000):
    """a bounded, deterministic set of assignments"""
    dom = []
    for a in sorted(atoms, key=lambda a: a.id):
        if isinstance(ranges.get(a), list): dom.append([(a, v) for v in ranges[a]])
        elif a in ranges: dom.append([(a, v) for v in range(ranges[a] + 1)])
        else: dom.append([(a, v) for v in consts])
    tot = 1
    for d in dom: tot *= len(d)
    if tot <= limit:
        for t in itertools.product(*dom): yield dict(t)
        return
    import random
    R = random.Random(7)
    for _ in range(limit): yield dict(R.choice(d) for d in dom)


def constants(xs):
    r = {-5, -1, 0, 1, 2, 3, 8, 100, 1 << 20, 2147483647}
    for x in xs:
        for a in all_atoms(x):
            pass
        st = [x]
        seen = set()
        while st:
            y = st.pop()
            if isinstance(y, (Poly, BDD, Cmp)) and y.id in seen: continue
            if isinstance(y, (Poly, BDD, Cmp)): seen.add(y.id)
            if isinstance(y, Poly):
                c = y.t.get((), 0)
                if isinstance(c, int) and abs(c) < 300: r |= {-c, -c + 1, -c - 1}
                for a in y.atoms(): st += [z for z in a.args if isinstance(z, (Poly, BDD))]
            elif isinstance(y, BDD) and y.v is not None: st += [c for c in y.support()]
            elif isinstance(y, Cmp) and isinstance(y.p, Poly): st.append(y.p)
    return sorted(r)


def vague(a):
    if getattr(a, "op", "") == "op": return True
    return a.kind == "ld" and a.args[0].name.startswith("noval") or a.kind == "unk" and str(a.args[0]).startswith(("at_exit", "trip_", "rec_", "cyc_", "noval"))


def solid(P, guard, env, cs):
    """does the witness stand whatever the values the summary lost are?"""
    v = [a for a in env if vague(a)]
    for vals in itertools.islice(itertools.product(*[(0, 1) if getattr(a, "op", "") == "op" else cs for a in v]), 3000):
        e = Eval({**env, **dict(zip(v, vals))})
        if not e.bdd(guard) or e.poly(P) >= 0: return False
    return True


def prove_or_witness(rep, rule, where, what, P, guard, ranges, facts=()):
    """guard => P >= 0 : proved, refuted by an assignment, or left open"""
    fs = list(facts)
    ranges = dict(ranges)
    for a, m in ranges.items(): fs += [poly(a), poly(m) - poly(a)]
    for a in free_atoms([P, guard]):
        tv = N.table_values(a) if a.kind == "ld" else None
        if tv:
            ranges[a] = tv
            fs += [poly(a) - tv[0], poly(tv[-1]) - poly(a)]
    if prove_ge(Ctx(fs), P, guard):
        rep.ok(rule, "%s: %s" % (where, what))
        return True
    atoms = free_atoms([P, guard])
    ops = [c for x in (P, guard) for y in all_bdds(x) for c in y.support() if c.op == "op"]
    cs = constants([P, guard])
    for env in concretise(atoms | set(ops), ranges, cs):
        try:
            e = Eval(env)
            if e.bdd(guard) and e.poly(P) < 0:
                if not solid(P, guard, env, cs):      # rests on a value the summary lost
                    rep.undec(rule, "%s: %s" % (where, what))
                    return False
                rep.violation(rule, where, "%s fails when %s" % (what, ", ".join("%s = %s" % (short(a), v) for a, v in env.items()) or "always"))
                return False
        except (Opaque, OverflowError, TypeError): break
    rep.undec(rule, "%s: %s" % (where, what))
    return None


def short(a):
    t = repr(a)
    return re.sub(r"#\d+", "", t)[:60]


def all_bdds(x):
    st, seen, r = [x], set(), []
    while st:
        y = st.pop()
        if isinstance(y, (Poly, BDD, Cmp, Atom)):
            if y.id in seen: continue
            seen.add(y.id)
        if isinstance(y, BDD):
            r.append(y)
            if y.v is not None: st += list(y.support())
        elif isinstance(y, Poly): st += list(y.atoms())
        elif isinstance(y, Cmp):
            if isinstance(y.p, Poly): st.append(y.p)
            elif isinstance(y.p, tuple): st += [z for z in y.p if isinstance(z, Poly)]
        elif isinstance(y, Atom): st += [z for z in y.args if isinstance(z, (Poly, BDD))]
    return r


def c19(rep):
    rep.technique = "typestate of pipes, initialisation/length analysis of text buffers, closed-form values of the context fields"
    mod, fs = T.program()
    load_strings(T._prog["path"])
    lay = D.layouts(T._prog["path"])
    if "cake_cntx_t" not in lay: raise Broken("type cake_cntx_t not found")
    off = {n: o for o, n in lay["cake_cntx_t"].items()}
    # 1. pipes
    seen = set()
    for f, s, a in T.analyse():
        if s.kind != "file": continue
        w = loc(s.ins).split(" ")[0]
        if w not in seen:
            seen.add(w)
            rep.count("pipes")
        for rule, i, text in a.bad: rep.violation("pipe: " + rule, w if rule == "leak" else loc(i).split(" ")[0], "%s: %s" % (U.name(f), text))
        if not a.bad: rep.ok("every pipe is checked before use and closed exactly once", "%s, %s" % (U.name(f), s.what))
    rep.need("pipes", 1)
    # 2. text buffers
    for f in fs:
        if not any(i.op == "call" and T.callname(i) in ("popen", "fopen", "fgets", "fread") and not i.chain for b, i in U.instrs(f)): continue
        t = Text(f, rep)
        rep.count("text buffers", len(t.size))
        for rule, w, text in t.bad: rep.violation(rule, w, text)
    rep.need("text buffers", 1)
    # 3. values
    nf = 0
    for f in fs:
        n = F.demangle_name(f.name)
        if n in ("get_cache_size", "get_num_physical_cores", "cake_query_cntx", "cake_query_cntx_torch"):
            nf += 1
            value(rep, mod, f, n, off)
    rep.count("probing functions", nf)
    R.dedupe(rep)
    rep.need("probing functions", 1)


def value(rep, mod, f, n, off):
    it = PInterp.__new__(PInterp)
    it.sizes, it.ranges = chararrays(f), {}
    N.Interp.__init__(it, mod, f, {})
    it.run()
    for ins, w in it.issues: rep.undec("summary", "%s: %s %s" % (n, loc(ins), w))
    # indices into text buffers, divisors
    for e, _ in N.walk(it.events):
        if e.kind == "loop":
            rep.count("loops")
            if getattr(e, "unknown_trip", False): rep.undec("probing terminates", "%s: loop at %s" % (n, loc(e.ins).split(" ")[0]))
        if e.kind in ("load", "store") and isinstance(e.ptr, Ptr) and e.ptr.obj.kind == "stack":
            sz = e.ptr.obj.size
            c = sz.const() if isinstance(sz, Poly) else sz
            if c is None: continue
            w = loc(e.ins).split(" ")[0]
            x = prove_or_witness(rep, "text index", w, "%s: index into %s is not negative" % (n, e.ptr.obj.name), e.ptr.off, e.guard, it.ranges)
            y = prove_or_witness(rep, "text index", w, "%s: index into %s stays below %d" % (n, e.ptr.obj.name, c), poly(c - e.width) - e.ptr.off, e.guard, it.ranges)
        if e.kind == "div":
            d = e.den
            if not isinstance(d, Poly) or d.const() not in (None, 0): continue
            g = e.guard
            w = loc(e.ins).split(" ")[0]
            # d != 0 : positive in practice
            prove_or_witness(rep, "divisor", w, "%s: the divisor is positive" % n, d - 1, g, it.ranges) if False else divisor(rep, w, n, d, g, it)
    facts = []
    args = [sym(a.name) for a in f.args if a.ty.k == "int"]
    for cond, v, mem in it.rets:
        where = "%s (entry %s)" % (short_file(f), n)
        if isinstance(v, Poly):
            g = cond
            for a in args: g = band(g, band(bge(a, 1), bge(3, a)))
            prove_or_witness(rep, "probed value is positive", where, "%s returns a positive number" % n, v - 1, g, it.ranges)
        elif isinstance(v, Ptr):
            rep.count("contexts")
            for fld in FIELDS:
                x = mem.get((v.obj, off[fld]))
                if x is None:
                    rep.violation("probed value is positive", where, "%s returns a context whose %s was never set" % (n, fld))
                    continue
                g = cond
                for a in args: g = band(g, bge(a, 1))
                if any("uninit" in str(q.args[0]) for q in all_atoms(x) if q.kind == "unk"):
                    rep.violation("probed value is positive", where, "%s returns a context whose %s may never have been set" % (n, fld))
                    continue
                prove_or_witness(rep, "probed value is positive", where, "%s: %s of the context is positive" % (n, fld), x - 1, g, it.ranges)
        else: rep.undec("probed value is positive", "%s: return value not followed" % n)


def divisor(rep, w, n, d, g, it):
    fs = []
    for a, m in it.ranges.items(): fs += [poly(a), poly(m) - poly(a)]
    c = Ctx(fs)
    if prove_ge(c, d - 1, g) or prove_ge(c, -d - 1, g):
        rep.ok("divisors of the probe are not zero", "%s in %s" % (w, n))
        return
    for env in concretise(free_atoms([d, g]) | {c for y in all_bdds(g) for c in y.support() if c.op == "op"}, it.ranges, constants([d, g])):
        try:
            e = Eval(env)
            if e.bdd(g) and e.poly(d) == 0:
                rep.violation("divisors of the probe are not zero", w, "%s: divisor is 0 when %s" % (n, ", ".join("%s = %s" % (short(a), v) for a, v in env.items())))
                return
        except (Opaque, OverflowError, TypeError): break
    rep.undec("divisors of the probe are not zero", "%s in %s" % (w, n))


def short_file(f):
    for b, i in U.instrs(f):
        if i.file and not i.chain: return N.short(i.file)
    return "src"
