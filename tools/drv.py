"""C01-C07, C09, C17, C20, C21 (array part): obligations over the closed-form access relations of every driver.

Each driver is summarised (drivers.py) as a tree of events in closed form over loop indices and free parameters.
For every scenario (driver x schedule x flags) and every event of the summary, the obligations below are searched for
a counterexample in the derived relations, instantiated at a condition-directed set of valuations (inst.py).  A
counterexample names the construct and the parameter valuation.
"""
import os, pickle, random, sys, time, zlib
import drivers as D, inst, interp as N
from frontend import Broken
from expr import *

THOROUGH = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv
NWORK = int(os.environ.get("VERIF_JOBS", "8"))
MACHINE = {"cake_cntx.L1": 32768, "cake_cntx.L2": 262144, "cake_cntx.L3": 1 << 21, "cake_cntx.ncores": 4, "cake_cntx.alpha_n": 1.0,
           "cake_cntx.m_map": 0, "cake_cntx.n_map": 0, "cake_cntx.peak_dram_bw": 32e9, "cake_cntx.peak_flops": 600e9}


class Env(dict):
    """valuation; a parameter nobody chose a value for gets a small one"""
    def __missing__(s, k): return zlib.crc32(str(k).encode()) % 7 + 1


def taint(gen, it, ev):
    """parts of the entry point the summary does not describe exactly: nothing found in it counts"""
    r = ["%s: %s" % (e.loc(), w[:120]) for e, w in gen.skipped] + ["%s: %s" % (N.loc(i), w) for i, w in it.issues]
    r += ["%s: stored value %s" % (e.loc(), w[:120]) for e, w in gen.vague]
    r += ["access through a pointer that is not followed (%s)" % o.name for o in gen.objs.values() if o.kind == "unknown" and o.name in ("ptr-phi", "gep?", "inttoptr")]
    return r + ["%s: call of %s" % (e.loc(), e.name) for e, _ in N.walk(ev) if e.kind == "call"]


class Job:
    """one scenario, compiled for instantiation"""

    def __init__(s, scn, P, kind="gemm"):
        s.scn, s.kind = scn, kind
        scn.load(P)
        s.gen = inst.Gen(contract_events(scn) + scn.ev, lets=scn.it.letdefs)
        s.ids = {a.name: scn.it.env[a].obj.id for a in scn.it.fn.args if a.name in ("A", "B", "C")}
        s.ptrs = {a.name: scn.it.env[a] for a in scn.it.fn.args if a.ty.k == "ptr"}
        s.name = scn.name
        s.taint = taint(s.gen, scn.it, scn.ev)

    def host(s, E):
        sz = {"A": 4 * E["M"] * E["K"], "B": 4 * E["K"] * E["N"], "C": 4 * E["M"] * E["N"]}
        if s.kind == "roundtrip": sz["A"] = sz["C"]
        return inst.Host(E, s.gen.objs, {s.ids[n]: (n, sz[n]) for n in s.ids})

    def want(s, E, r, c):
        if s.kind == "roundtrip": return {(("A", 4 * (r * E["N"] + c)),): 1}
        w = {}
        K, NN = E["K"], E["N"]
        for k in range(K): w[(("A", 4 * (r * K + k)), ("B", 4 * (k * NN + c)))] = 1
        if s.scn.beta: w[(("C", 4 * (r * NN + c)),)] = 1
        return w

    def run(s, E):
        """[(rule, where, text)] at one valuation"""
        E = Env({**MACHINE, **E})
        h = s.host(E)
        try: s.gen.run(E, h)
        except (inst.Stop, ValueError, OverflowError, ZeroDivisionError, TypeError, MemoryError):
            return [(r, e.loc(), t) for r, e, t in h.bad]          # sizes that are no numbers: only what was found before
        bad = [(r, e.loc(), t) for r, e, t in h.bad]
        for k, l in h.finish(): bad.append(("leak", l, "%s is never released" % l))
        C = h.mem[(s.ids["C"],)]
        n = 0
        for r in range(E["M"]):
            for c in range(E["N"]):
                o = 4 * (r * E["N"] + c)
                v = C.get(o)
                w = s.want(E, r, c)
                if v == w: continue
                d = diff(v, w, E, s)
                where = h.writer.get(o)
                if where is None: where = "no store of the summary reaches it (entry %s)" % s.scn.entry
                else: where = where.loc()
                bad.append((d[0], where, "C[%d][%d] %s" % (r, c, d[1])))
                n += 1
                if n > 2: return bad
        return bad


def diff(v, w, E, job):
    """(rule, description) of a wrong element"""
    if v is None: return "unwritten", "is never written"
    if v is inst.UNDEF: return "undef", "gets a value computed from memory that was never written, or read out of bounds"
    K, NN = E["K"], E["N"]

    def nm(m):
        return " * ".join("%s[%d][%d]" % ((x,) + divmod(o // 4, K if x == "A" and job.kind == "gemm" else NN)) for x, o in m) or "1"
    miss = [m for m in w if v.get(m, 0) == 0]
    more = [m for m in w if v.get(m, 0) not in (0, w[m])]
    extra = [m for m in v if m not in w]
    rule = "result"
    if any(any(x == "C" for x, _ in m) for m in extra): rule = "oldC"
    elif miss and all(m[0][0] == "C" for m in miss) and not extra and not more: rule = "beta"
    t = []
    if miss: t.append("misses %d of %d terms, e.g. %s" % (len(miss), len(w), nm(miss[0])))
    if more: t.append("has %d terms with a wrong multiplicity, e.g. %s x%d" % (len(more), nm(more[0]), v[more[0]]))
    if extra: t.append("has %d terms that do not belong, e.g. %s" % (len(extra), nm(extra[0])))
    return rule, "; ".join(t)


def contract_events(scn):
    """the tile sizes a scenario derives, as obligations"""
    r = []
    for f, l in scn.contract_all.items():
        for v, ins in l:
            e = N.Ev("contract", ins, field=f, val=v)
            r.append(e)
    return r


# ------------------------------------------------------------------------------------ valuations
TILES = ((6, 16), (6, 32), (8, 16), (8, 32))
BETAS = (1, 2, -1, 0.5, -0.25, 1e-6, 3)
def rng(*k): return random.Random(zlib.crc32(repr(k).encode()))


def scattered(R):
    q = R.random()
    p = R.choice((1, 2, 2, 3, 4, 4, 5, 6, 8)) if q < .9 else R.randint(7, 24)
    mr, nr = R.choice((1, 2, 3, 4, 6)), R.choice((1, 2, 3, 4))
    if q > .9: mr, nr = R.choice(TILES)
    mu, nu, kc = R.choice((1, 1, 2, 3)), R.choice((1, 1, 2, 3)), R.choice((1, 2, 3, 4, 7))
    pm = R.choice([d for d in range(1, p + 1)])
    pn = R.randint(1, p // pm)
    if R.random() < .5:
        pm = R.choice([d for d in range(1, p + 1) if p % d == 0]); pn = p // pm
    blk = {"M": mr * mu, "N": nr * nu, "K": kc}
    E = {"p": p, "pm": pm, "pn": pn, "mu": mu, "nu": nu, "kc": kc, "cake_cntx.mr": mr, "cake_cntx.nr": nr}
    for d, lim in (("M", 26), ("N", 26), ("K", 14)):
        w = R.random()
        b = blk[d]
        if w < .25: v = R.randint(1, max(1, b))                       # inside one block
        elif w < .45: v = b * R.randint(1, 4)                         # exact multiples
        elif w < .6: v = b * (p if d != "K" else 2) * R.choice((1, 1, 2)) + R.choice((0, 0, 1, -1, b))
        elif w < .75: v = R.randint(1, lim)
        else: v = R.randint(1, 4) * b * R.choice((1, pm if d == "M" else pn)) + R.randint(0, b)
        E[d] = max(1, min(v, 60))
    if nr > 4: E["K"] = min(E["K"], 3)
    while E["M"] * E["N"] * E["K"] > 6000:
        d = R.choice("MNK")
        E[d] = max(1, E[d] * 2 // 3)
    return E


def structured(R, job):
    """whole blocks plus a remainder that is uniform over one block row / column of the thread grid, so that every
    combination of partly used grid rows, grid columns, last blocks and depths turns up"""
    two = job.scn.entry.startswith("cake_sgemm_2d")
    p = R.choice((1, 2, 3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12))
    pm = R.choice([d for d in range(1, p + 1) if p % d == 0])
    pn = p // pm
    if R.random() < .2: pn = R.randint(1, pn)
    mr, nr = R.choice((1, 1, 2, 3)), R.choice((1, 1, 2, 3))
    mu, nu, kc = R.choice((1, 2, 3)), R.choice((1, 2, 3)), R.choice((1, 1, 2, 3))
    E = {"p": p, "pm": pm, "pn": pn, "mu": mu, "nu": nu, "kc": kc, "cake_cntx.mr": mr, "cake_cntx.nr": nr}
    um, un, uk = mr * mu * (pm if two else p if job.scn.sch != "MKN" else 1), nr * nu * (pn if two else 1), \
        kc * (1 if two or job.scn.sch in (None, "KMN") else p)
    for d, u in (("M", um), ("N", un), ("K", uk)):
        E[d] = u * R.choice((0, 1, 1, 2, 3 if d != "M" else 2)) + (R.randint(0, u) if R.random() < .8 else 0)
        E[d] = max(1, min(E[d], 80))
    while E["M"] * E["N"] * E["K"] > 5000:
        d = "K" if E["K"] > 2 * uk else R.choice("MN")
        u = {"M": um, "N": un, "K": uk}[d]
        E[d] = max(1, E[d] - u if E[d] > u else E[d] * 2 // 3)
    return E


def valuations(job, n, salt=0):
    """deterministic, structured: few / many blocks and panels in each dimension, remainders and exact multiples,
    more threads than work, register tiles from 1 to the real ones"""
    R = rng(job.scn.entry, job.scn.sch, job.scn.beta, job.scn.user, job.scn.raw, salt)
    for i in range(n):
        if i % 2: E = structured(R, job)
        else: E = scattered(R)
        if job.scn.beta: E["beta"] = BETAS[i % len(BETAS)]
        if job.scn.raw:
            E["cake_cntx.L1"] = R.choice((8, 64, 200, 500, 2000, 32768))
            E["cake_cntx.L2"] = R.choice((4, 32, 100, 300, 800, 2000, 6000, 262144))
            E["cake_cntx.L3"] = R.choice((16, 200, 2000, 20000, 1 << 21))
            E["cake_cntx.ncores"] = R.choice((1, 2, 4, 8))
        yield E


def sweep(jobs, n, salt=0, extra=None):
    """run every job at n valuations; [(job index, rule, where, text, valuation)]"""
    work = []
    for ji, j in enumerate(jobs):
        for E in j.valuations(n) if hasattr(j, "valuations") else valuations(j, n, salt): work.append((ji, E))
        for E in (extra or {}).get(ji, ()): work.append((ji, E))
    R = rng("order")
    R.shuffle(work)
    parts = [work[i::NWORK] for i in range(NWORK)]
    kids = []
    for part in parts:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out, seen = [], {}
                for ji, E in part:
                    for rule, where, text in jobs[ji].run(E):
                        k = (ji, rule, where)
                        seen[k] = seen.get(k, 0) + 1
                        if seen[k] <= 2: out.append((ji, rule, where, text, E))
                with os.fdopen(w, "wb") as f: pickle.dump((len(part), out), f)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    res, cnt = [], 0
    for pid, r in kids:
        with os.fdopen(r, "rb") as f: data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data: raise Broken("an instantiation worker failed")
        c, o = pickle.loads(data)
        cnt += c
        res += o
    size = lambda E: (E.get("M", 1) * E.get("N", 1) * E.get("K", 1), sum(E.get(x, 0) for x in "MNKp"))
    res.sort(key=lambda x: size(x[4]))
    return cnt, res


# ------------------------------------------------------------------------------------ scenario sets
def S(name, *a, **k): return D.Scenario(name, *a, **k)


def jobset(P, which):
    r = []
    if "gemm" in which:
        for sch in ("KMN", "MKN", "NKM"):
            r.append(S("cake_sgemm %s" % sch, "cake_sgemm", sch))
            r.append(S("cake_sgemm %s, caller's tile" % sch, "cake_sgemm", sch, user=True))
            r.append(S("cake_sgemm %s, derived tile" % sch, "cake_sgemm", sch, raw=True))
    if "beta" in which:
        for sch in ("MKN", "NKM"):
            r.append(S("cake_sgemm %s beta!=0" % sch, "cake_sgemm", sch, beta=1))
            r.append(S("cake_sgemm %s beta!=0, caller's tile" % sch, "cake_sgemm", sch, beta=1, user=True))
            r.append(S("cake_sgemm %s beta!=0, derived tile" % sch, "cake_sgemm", sch, beta=1, raw=True))
    if "online" in which:
        for e in ("cake_sgemm_online", "cake_sgemm_2d"):
            r.append(S(e, e))
            r.append(S("%s, caller's tile" % e, e, user=True))
            r.append(S("%s, derived tile" % e, e, raw=True))
    if "packed" in which:
        for sch in ("KMN", "MKN", "NKM"):
            for a, b in ((True, True), (True, False), (False, True)):
                t = "pre-packed %s, %s" % ("A and B" if a and b else "A" if a else "B", sch)
                r.append(S(t, "verif_prepacked", sch, packedA=a, packedB=b))
                if a and b:
                    r.append(S(t + ", caller's tile", "verif_prepacked", sch, packedA=a, packedB=b, user=True))
                    r.append(S(t + ", derived tile", "verif_prepacked", sch, packedA=a, packedB=b, raw=True))
                    if sch != "KMN": r.append(S(t + " beta!=0", "verif_prepacked", sch, beta=1, packedA=a, packedB=b))
    jobs = [Job(x, P) for x in r]
    if "roundtrip" in which:
        for sch in ("KMN", "MKN", "NKM"):
            jobs.append(Job(S("pack_C then unpack_C, %s" % sch, "verif_roundtrip", sch), P, "roundtrip"))
            jobs.append(Job(S("pack_C then unpack_C, %s, derived tile" % sch, "verif_roundtrip", sch, raw=True), P, "roundtrip"))
    return jobs


ALL = ("gemm", "beta", "online", "packed", "roundtrip")
# property -> (scenario families, rules)
PLAN = {
    "C01": (("gemm",), {"result", "oldC", "unwritten", "undef"}),
    "C02": (("online",), {"result", "oldC", "unwritten", "undef"}),
    "C03": (("beta", "roundtrip"), {"result", "oldC", "unwritten", "undef", "beta"}),
    "C04": (ALL, {"bounds:arg"}),
    "C05": (ALL, {"bounds:live", "alloc", "slot"}),
    "C06": (ALL, {"race"}),
    "C07": (ALL, {"readonly", "freearg"}),
    "C08": (ALL, {"leak", "free", "freearg", "live"}),
    "C09": (("gemm", "online", "beta"), {"undef"}),
    "C13": (ALL, {"tile"}),
    "C17": (("gemm", "online", "beta"), {"contract", "divzero", "slot"}),
    "C20": (("gemm", "online"), {"unwritten", "oldC"}),
    "C21": (("packed",), {"result", "oldC", "unwritten", "undef", "beta"}),
}


def decide(rep, prop, n=None):
    fam, rules = PLAN[prop]
    P = D.Program.get()
    jobs = jobset(P, fam)
    n = n or (4000 if THOROUGH else 600)
    nev = 0
    for j in jobs:
        rep.count("scenarios")
        for e, _ in N.walk(j.scn.ev):
            if e.kind in ("load", "store", "kernel", "packk", "memset", "memcpy", "alloc", "free", "loop"): nev += 1
        for w in j.taint: rep.undec("summary", "%s: %s" % (j.name, w))
        check_shape(j, rep)
    rep.count("access relations", nev)
    cnt, res = sweep(jobs, n)
    rep.count("valuations", cnt)
    seen = {}
    for ji, rule, where, text, E in res:
        if rule not in rules: continue
        if jobs[ji].taint:
            rep.undec(rule, "%s: %s (the summary is not exact)" % (jobs[ji].name, where))
            continue
        k = (rule, where)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 1: continue
        rep.violation(rule, where, "%s: %s   [%s]" % (jobs[ji].name, text, ", ".join("%s=%s" % (a, b) for a, b in E.items())))
    for j in jobs:
        if j.taint: continue
        rep.ok("search", "%s: no counterexample to %s at %d valuations" % (j.name, "/".join(sorted(rules)), n))
    return jobs, res


def check_shape(j, rep):
    """the summary still contains what the property is about"""
    kinds = {e.kind for e, _ in N.walk(j.scn.ev)}
    need = {"store", "load"} | (set() if j.kind == "roundtrip" else {"kernel", "alloc"})
    if not need <= kinds: raise Broken("%s: no %s in the summary of %s" % (rep.prop, "/".join(sorted(need - kinds)), j.name))


def make(prop):
    def f(rep):
        rep.technique = "closed-form access relations of every driver; counterexample search over parameter valuations"
        decide(rep, prop)
    return f


for _p in PLAN: globals()[_p.lower()] = make(_p)


def c06(rep):
    import ompcheck
    ompcheck.scalars(rep)
    import transpose
    transpose.c18(rep, ("race",))
    decide(rep, "C06")
    rep.technique = "sharing analysis of every outlined parallel region; per-iteration access relations of every parallel loop"
