"""C12: kernels of the other back ends (ARMv8 dense, sparse for both instruction sets).

Dense: the rule of C11 with 4-lane vectors.
Sparse: the closed-form summary of the kernel (offsets of A, B, loc_m, c and trip counts as functions of
nnz_outer, k_inds, loc_m) is decided in two parts.
  local rules, for every store into the accumulators and every k at once:
    the accumulator of the row listed at position P is increased, lane by lane, by A[P] * B[n*k_inds[S] + lane], all
    nr lanes of the row in one pass over the rows of column S, and the number of passes is nnz_outer[S];
    the accumulators are loaded from and stored back to the same place of the C tile.
  order rule: positions P and columns S enumerate the stored columns once each; searched over a deterministic set of
    column patterns evaluated in the derived relation.
"""
import os, re, sys, shutil, random
from collections import Counter
import frontend as F, interp as N, kernels as K
from frontend import Broken
from expr import *
from prover import Ctx
from inst import Opaque

ARM = ["-target", "aarch64-linux-gnu", "-ffreestanding", "-DUSE_CAKE_ARMV8", "-DUSE_ROSKO_ARMV8"]
X86 = ["-mavx", "-mfma", "-DUSE_CAKE_HASWELL", "-DUSE_ROSKO_HASWELL"]


def limits(arch):
    inst = open(os.path.join(F.REPO, "install.sh")).read()
    m = re.search(r"kernel_gen\.py\s+%s\s+(\d+)\s+(\d+)\s+dense" % arch, inst)
    return m.groups() if m else {"haswell": ("8", "32"), "armv8": ("10", "24")}[arch]


def generate(arch, mode):
    """(source, dir): the generator's output for one back end, plus a probe of its table"""
    d = os.path.join(F.scratch(), "gen_%s_%s" % (arch, mode))
    os.makedirs(d + "/include")
    shutil.copy(os.path.join(F.REPO, "python/kernel_gen.py"), d)
    mr, nr = limits(arch)
    F.run([sys.executable, "kernel_gen.py", arch, mr, nr, mode], cwd=d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    src = os.path.join(d, mode + ".cpp")
    if not os.path.exists(src): raise Broken("kernel_gen.py %s %s wrote no %s.cpp" % (arch, mode, mode))
    tabs = ["kernel_map"] if mode == "dense" else ["kernel_map_sp", "kernel_map_sp_new"]
    open(src, "a").write("\n" + "".join("void *verif_%s(int i, int j) { return (void*)%s[i][j]; }\n" % (t, t) for t in tabs)
                         + "int verif_fact(int w) { return w == 0 ? MR_MIN : w == 1 ? MR_FACT : w == 2 ? NR_MIN : NR_FACT; }\n")
    return src, d


def compile_(src, d, arch):
    out = src[:-4] + ".ll"
    F.run([F.CLANG, "-S", "-emit-llvm", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-ffp-contract=off",
           "-fno-math-errno", "-fno-discard-value-names", "-w"] + (ARM if arch == "armv8" else X86) + ["-I" + d + "/include", src, "-o", out])
    return K.module(out, "be_" + os.path.basename(d))


# ------------------------------------------------------------------ tables
def consts(f):
    """the constants verif_fact returns for w = 0..3"""
    import irload as I
    it = None
    r = []
    for w in range(4):
        it = N.Interp(f.mod if hasattr(f, "mod") else f._m, f, {f.args[0].name: poly(w)}).run()
        v = [x for c, x, m in it.rets if c is not FALSE]
        if len(v) != 1 or v[0].const() is None: return None
        r.append(v[0].const())
    return r


def tables(rep, mod, label, pat):
    f = [f for n, f in mod.funcs.items() if F.demangle_name(n) == "verif_fact"][0]
    f._m = mod
    c = consts(f)
    if c is None: raise Broken("%s: tile constants not constant" % label)
    have = {}
    for n, f in mod.funcs.items():
        d = F.demangle_name(n)
        m = re.fullmatch(r"(\w+)_(\d+)x(\d+)", d)
        if m and not f.decl: have[m.group(1), int(m.group(2)), int(m.group(3))] = n
    for gn, g in mod.globals.items():
        base = F.demangle_name(gn)
        if base not in pat: continue
        rows, cols = g.ty.n, g.ty.elem.n
        rep.count("table entries", rows * cols)
        for i in range(rows):
            for j in range(cols):
                e = N.table_entry(g.v["init"], g.ty, 8 * (i * cols + j))
                mr, nr = c[0] + i * c[1], c[2] + j * c[3]
                want = have.get((pat[base], mr, nr))
                got = getattr(e, "name", None)
                if want is not None and got == want: rep.ok("table", "%s %s[%d][%d] is the %dx%d kernel" % (label, base, i, j, mr, nr))
                else: rep.violation("table", "%s (generated from python/kernel_gen.py)" % label, "%s[%d][%d] holds %s, tile %dx%d selects it" % (base, i, j, got and F.demangle_name(got), mr, nr))


# ------------------------------------------------------------------ sparse: local rules
def canon(P, depth=0):
    """integer content pulled out of finite sums and selections, bound variables named by depth"""
    from math import gcd
    r = ZERO
    for m, c in P.t.items():
        t = poly(c)
        for a, e in m:
            if a.kind == "sum":
                lv, U, B = a.args
                z = Atom("lv", "z%d" % depth)
                B = canon(Subst({lv: poly(z)})(B), depth + 1)
                g = 0
                for x in B.t.values(): g = gcd(g, abs(x))
                x = poly(g or 1) * ssum(z, U, exact_div(B, poly(g)) if g > 1 else B)
            elif a.kind == "ite":
                b, c1 = canon(a.args[1], depth), canon(a.args[2], depth)
                g = 0
                for x in list(b.t.values()) + list(c1.t.values()): g = gcd(g, abs(x))
                x = poly(g or 1) * ite(a.args[0], exact_div(b, poly(g)) if g > 1 else b, exact_div(c1, poly(g)) if g > 1 else c1)
            else: x = poly(a)
            for _ in range(e): t = t * x
        r = r + t
    return r


def local(rep, it, ob, label, mr, nr):
    """every store into the accumulator array, for all inputs at once"""
    where = "%s (generated from python/kernel_gen.py)" % label
    A, B, C, NZ, KI, LM = ob
    accs = {e.ptr.obj for e, _ in N.walk(it.events) if e.kind == "store" and e.ptr.obj.kind == "stack"}
    if len(accs) != 1:
        rep.undec("sparse update", "%s: %d accumulator arrays" % (label, len(accs)))
        return None
    acc = accs.pop()
    groups = {}
    for e, st in N.walk(it.events):
        if e.kind == "store" and e.ptr.obj is acc and st: groups.setdefault(st[-1].uid, (st, []))[1].append(e)
    for st, es in groups.values():
        L = st[-1]
        lanes, P, S, bad = set(), None, None, None
        for e in es:
            vs = e.val if isinstance(e.val, tuple) else (e.val,)
            rows = [a for a in all_atoms(e.ptr.off) if a.kind == "ld" and a.args[0] is LM]
            lin = N.linear(e.ptr.off, rows[0]) if len(rows) == 1 else None
            if lin is None or lin[1].const() != 4 * nr or lin[0].const() is None:
                bad = (e, "the accumulator at byte %s is not a lane of the row listed in loc_m" % e.ptr.off)
                break
            base, P1 = lin[0].const(), rows[0].args[2]
            if P is not None and P1 is not P:
                bad = (e, "two positions of loc_m in one step")
                break
            P = P1
            for k, v in enumerate(vs):
                old = poly(Atom("ld", acc, e.ptr.idx, e.ptr.off + 4 * k))
                d = v - old
                fs = [a for m in d.t for a, x in m for _ in range(x)]
                if len(d.t) != 1 or list(d.t.values()) != [1] or len(fs) != 2 or {a.kind for a in fs} != {"ld"} or {a.args[0] for a in fs} != {A, B}:
                    bad = (e, "the increment of the lane is %s" % str(d)[:120])
                    break
                a = [x for x in fs if x.args[0] is A][0].args[2]
                b = [x for x in fs if x.args[0] is B][0].args[2]
                if a is not 4 * P and canon(a) is not canon(4 * P):
                    bad = (e, "the row is listed at position %s but the value is taken from A byte %s" % (str(P)[:100], str(a)[:100]))
                    break
                ks = [x for x in all_atoms(b) if x.kind == "ld" and x.args[0] is KI]
                bl = N.linear(b, ks[0]) if len(ks) == 1 else None
                if bl is None or bl[1].const() != 4 * nr or bl[0].const() is None:
                    bad = (e, "B byte %s is not in the row indexed by k_inds" % str(b)[:100])
                    break
                if bl[0].const() != base + 4 * k:
                    bad = (e, "lane %d of C is increased with lane %d of B" % ((base + 4 * k) // 4, bl[0].const() // 4))
                    break
                S1 = exact_div(ks[0].args[2], poly(4))
                if S is not None and S1 is not S:
                    bad = (e, "two columns of k_inds in one step")
                    break
                S = S1
                if base + 4 * k in lanes:
                    bad = (e, "lane %d is increased twice" % ((base + 4 * k) // 4))
                    break
                lanes.add(base + 4 * k)
            if bad: break
        if not bad and lanes != {4 * j for j in range(nr)}:
            bad = (es[0], "lanes %s of the row are not increased" % sorted({4 * j for j in range(nr)} - lanes)[:4])
        if not bad:
            T = max0(poly(Atom("ld", NZ, (), S)))
            if L.T is not T: bad = (es[0], "the number of rows of column %s is taken as %s" % (str(S)[:60], str(L.T)[:80]))
            d = P - poly(L.lv)
            if not bad and contains(d, L.lv): bad = (es[0], "positions in loc_m do not advance one by one: %s" % str(P)[:100])
        yield acc, st, es, bad, P, S


# ------------------------------------------------------------------ sparse: the derived relation at one instance
class Inst:
    def __init__(s, it, ob, mr, nr, data):
        s.it, s.ob, s.mr, s.nr = it, ob, mr, nr
        s.A, s.B, s.C, s.NZ, s.KI, s.LM = ob
        s.data = data                    # k, nnz, kinds, loc
        s.arr = {s.NZ: (data["nnz"], 1), s.KI: (data["kinds"], 4), s.LM: (data["loc"], 1)}
        s.env = dict(data["env"])
        s.mem = {}
        s.snap = {}
        s.oob = None
        tot = len(data["loc"])
        s.lim = {s.A: 4 * tot, s.B: 4 * nr * data["K"], s.C: 4 * mr * nr, s.NZ: len(data["nnz"]), s.KI: 4 * len(data["kinds"]), s.LM: tot}

    # integers
    def int(s, P):
        v = 0
        for m, c in P.t.items():
            for a, e in m:
                c *= s.ia(a) ** e
                if c == 0: break
            v += c
        return v

    def ia(s, a):
        if a in s.env: return s.env[a]
        k = a.kind
        if k == "ld" and a.args[0] in s.arr:
            t, w = s.arr[a.args[0]]
            q, r = divmod(s.int(a.args[2]), w)
            if r or not 0 <= q < len(t): raise Opaque("%s[%d]" % (a.args[0].name, q))
            return t[q]
        if k == "div":
            n, d = s.int(a.args[0]), s.int(a.args[1])
            if d == 0: raise Opaque("division by zero")
            q = abs(n) // abs(d)
            return q if (n < 0) == (d < 0) else -q
        if k == "max0": return max(0, s.int(a.args[0]))
        if k == "ite": return s.int(a.args[1] if s.bool(a.args[0]) else a.args[2])
        if k in ("sum", "find"):
            lv, U, B = a.args
            u, r = s.int(U), 0
            for t in range(u):
                s.env[lv] = t
                if k == "sum": r += s.int(B)
                elif s.bool(B):
                    s.env.pop(lv)
                    return t
            s.env.pop(lv, None)
            return r if k == "sum" else max(0, u)
        raise Opaque(repr(a)[:80])

    def bool(s, b):
        while b.v is not None:
            c = b.v
            if c.op == "ge0": r = s.int(c.p) >= 0
            elif c.op == "eq0": r = s.int(c.p) == 0
            else: raise Opaque(repr(c)[:80])
            b = b.hi if r else b.lo
        return b is TRUE

    # sums of products of elements
    def val(s, P):
        out = Counter()
        for m, c in P.t.items():
            acc = Counter({(): c})
            for a, e in m:
                for _ in range(e):
                    g = s.va(a)
                    nx = Counter()
                    for m1, c1 in acc.items():
                        for m2, c2 in g.items(): nx[tuple(sorted(m1 + m2))] += c1 * c2
                    acc = nx
            for k, v in acc.items(): out[k] += v
        return out

    def va(s, a):
        if a.kind == "ld":
            o, off = a.args[0], s.int(a.args[2])
            if (o, off) in s.snap: return s.snap[o, off]
            if o.kind == "stack": return Counter({(("unset %s" % o.name, off),): 1})
            return Counter({((o.name, off),): 1})
        return Counter({(): s.ia(a)})

    def run(s):
        s.go(s.it.events)
        return s

    def touch(s, e, off):
        o = e.ptr.obj
        if o in s.lim and not (0 <= off and off + e.width <= s.lim[o]) and s.oob is None:
            s.oob = (e, "%s: bytes %d..%d of %d" % (o.name, off, off + e.width, s.lim[o]))
        elif o.kind == "stack" and o.size is not None:
            z = o.size if isinstance(o.size, int) else o.size.const()
            if z is not None and not (0 <= off and off + e.width <= z) and s.oob is None: s.oob = (e, "%s: bytes %d..%d of %d" % (o.name, off, off + e.width, z))

    def go(s, evs):
        for e in evs:
            if e.kind == "loop":
                if getattr(e, "unknown_trip", False): raise Opaque("loop at %s" % e.loc())
                if not s.bool(e.guard): continue
                for t in range(s.int(e.T)):
                    s.env[e.lv] = t
                    s.go(e.body)
                s.env.pop(e.lv, None)
                continue
            if e.kind not in ("load", "store"): continue
            if not s.bool(e.guard): continue
            off = s.int(e.ptr.off)
            s.touch(e, off)
            o = e.ptr.obj
            if e.kind == "load":
                if o.kind == "stack" or o is s.C:
                    for b in range(0, e.width, 4):
                        d = Counter({((o.name, off + b),): 1}) if o is s.C else Counter({(("unset %s" % o.name, off + b),): 1})
                        s.snap[o, off + b] = s.mem.get((o, off + b), d)
            else:
                vs = e.val if isinstance(e.val, tuple) else (e.val,)
                w = e.width // len(vs)
                vv = [s.val(v) for v in vs]
                for k, v in enumerate(vv): s.mem[o, off + k * w] = v


def patterns(mr, new):
    rnd = random.Random(5)
    out = []
    for k in list(range(0, 10)) + [11, 12, 13, 16]:
        for rep in range(3 if k else 1):
            cut = k if new or rep < 2 else rnd.randrange(0, k + 1)
            nnz = [(rnd.randrange(1, mr + 1) if rep else 1 + (i % mr)) if i < cut else 0 for i in range(k)]
            Kd = k + 3
            kinds = rnd.sample(range(Kd), k)
            loc = [r for n in nnz for r in sorted(rnd.sample(range(mr), n))]
            out.append(dict(k=k, nnz=nnz, kinds=kinds, loc=loc, K=Kd))
    return out


def order(rep, it, ob, kat, label, mr, nr, new):
    where = "%s (generated from python/kernel_gen.py)" % label
    A, B, C = (o.name for o in ob[:3])
    for p in patterns(mr, new):
        x = Inst(it, ob, mr, nr, {**p, "env": {kat: p["k"]}}).run()
        rep.count("column patterns")
        exp = {4 * l: Counter({((C, 4 * l),): 1}) for l in range(mr * nr)}
        pos = 0
        for s, n in enumerate(p["nnz"]):
            for _ in range(n):
                r = p["loc"][pos]
                for j in range(nr): exp[4 * (r * nr + j)][tuple(sorted([(A, 4 * pos), (B, 4 * (nr * p["kinds"][s] + j))]))] += 1
                pos += 1
        desc = "k=%d, rows per column %s" % (p["k"], p["nnz"])
        if x.oob:
            rep.violation("sparse access in bounds", where, "%s: %s at %s is outside the array [%s]" % (label, x.oob[1], x.oob[0].loc().split(" ")[0], desc))
            return
        for off, w in exp.items():
            g = x.mem.get((ob[2], off))
            if g is None: rep.violation("sparse tile stored back", where, "%s never stores C[%d][%d] [%s]" % (label, off // 4 // nr, off // 4 % nr, desc)); return
            g = Counter({k: v for k, v in g.items() if v})
            if g != w:
                rep.violation("sparse sum", where, "%s: C[%d][%d] misses %s and has %s in excess [%s]" % (label, off // 4 // nr, off // 4 % nr, K.fmt(w - g), K.fmt(g - w), desc))
                return
        ex = [o for (o, off) in x.mem if o is not ob[2] and o.kind != "stack"]
        if ex:
            rep.violation("sparse inputs read-only", where, "%s writes %s [%s]" % (label, ex[0].name, desc))
            return
        rep.ok("sparse sum", "%s, %s: every lane of the tile holds its sum" % (label, desc))


def sparse(rep, fn, mod, mr, nr, label, new):
    pos = list(fn.args)
    if len(pos) != 9: raise Broken("%s has %d parameters" % (label, len(pos)))
    t = N.Interp(mod, fn, {pos[3].name: poly(mr), pos[4].name: poly(nr)})
    t.find_loads = True
    it = t.run()
    ob = [it.env[pos[q]].obj for q in (0, 1, 2, 6, 7, 8)]
    kat = next(iter(it.env[pos[5]].atoms()))
    rep.count("sparse kernels")
    where = "%s (generated from python/kernel_gen.py)" % label
    n = 0
    for acc, st, es, bad, P, S in local(rep, it, ob, label, mr, nr):
        n += 1
        rep.count("accumulation sites", len(es))
        if bad: rep.undec("sparse update", "%s: %s" % (label, bad[1]))
        else: rep.ok("sparse update", "%s: every lane of the row loc_m[P] gains A[P]*B[%d*k_inds[%s]+lane], nnz_outer[%s] times" % (label, nr, str(S)[:40], str(S)[:40]))
    try:
        order(rep, it, ob, kat, label, mr, nr, new)
    except Opaque as x:
        rep.undec("sparse sum", "%s: %s" % (label, x))
    return n


def job(j):
    from common import Report
    arch, mode = j
    rep = Report("C12")
    src, d = generate(arch, mode)
    mod = compile_(src, d, arch)
    if mode == "dense":
        tables(rep, mod, arch + " dense", {"kernel_map": "cake_sgemm_" + arch})
    else:
        tables(rep, mod, arch + " sparse", {"kernel_map_sp": "rosko_sgemm_" + arch, "kernel_map_sp_new": "rosko_sgemm_new_" + arch})
    for n, f in sorted(mod.funcs.items()):
        dm = F.demangle_name(n)
        if f.decl: continue
        if mode == "dense":
            m = re.fullmatch(r"cake_sgemm_%s_(\d+)x(\d+)" % arch, dm)
            if m: K.dense(rep, f, int(m.group(1)), int(m.group(2)), mod, dm, 4)
        else:
            m = re.fullmatch(r"rosko_sgemm_(new_)?%s_(\d+)x(\d+)" % arch, dm)
            if m: sparse(rep, f, mod, int(m.group(2)), int(m.group(3)), dm, bool(m.group(1)))
    return rep


def c12(rep):
    from common import fork_map
    rep.technique = ("Lane-wise data flow over the LLVM IR of the generator's output for the other back ends. ARMv8 dense kernels: the rule of C11. Sparse kernels (both instruction sets): "
                     "closed-form offsets as functions of nnz_outer, k_inds and loc_m; a local rule for every accumulation site, and a deterministic search over column patterns in the derived relation for the order rule.")
    rep.assume = ["integer overflow excluded (C24)", "floating-point addition treated as exact addition (rounding is C22)",
                  "sparse format: in the uncompressed kernels the empty columns come last (the kernels stop at the first empty one)",
                  "kernels are called with m=mr, n=nr"]
    F.scratch()
    for r in fork_map(job, [("armv8", "dense"), ("armv8", "sparse"), ("haswell", "sparse")]):
        rep.merge(r)
    rep.need("kernels", 4)
    rep.need("sparse kernels", 16)
    rep.need("accumulation sites", 16)
    rep.need("table entries", 20)
