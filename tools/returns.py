"""C27: a valid call comes back.

The entry points are interpreted with two more kinds of facts kept: for every path that ends the process (exit, abort,
a failed assertion ...) the condition it is taken under, and for every loop the condition under which its continuation
test holds for all iterations, from the closed forms of its counters.  With allocations that succeed and a valid
schedule no such condition may be satisfiable.  Divisors are obligations too: an integer division by zero also ends the
process.  Conditions are first decided from the sign facts of the parameters, what is left is searched for a valuation.
"""
import common, drivers as D, drv, frontend as F, inst, interp as N, irload as I
from frontend import Broken
from expr import *
from prover import Ctx

PARAMS = ["M", "N", "K", "p", "cake_cntx.mr", "cake_cntx.nr", "mu", "nu", "kc", "pm", "pn"]
KINDS = ("loop", "exit", "div")


class RJob:
    """control skeleton of one scenario"""

    def __init__(s, scn, P):
        s.scn, s.name, s.kind = scn, scn.name, "gemm"
        N.Interp.ends = True
        scn.load(P)
        s.setup(scn.it, scn.ev, [sym(x) - 1 for x in PARAMS])

    def setup(s, it, ev, facts):
        ctx = Ctx(facts)
        s.closed, s.open, s.unsure, s.env = 0, [], [], 0
        keep = set()
        for e, ch in N.walk(ev):
            if e.kind == "loop":
                if e.never is None: s.unsure.append(e)
                elif no(ctx, e.never) or no(ctx, band(e.guard, e.never)):
                    e.never = FALSE
                    s.closed += 1
                elif outside(e.never): s.env += 1; e.never = FALSE
                else: s.open.append(e)
            elif e.kind == "exit":
                if no(ctx, e.guard): s.closed += 1
                elif outside(e.guard): s.env += 1
                else: s.open.append(e); keep.add(e.uid)
            elif e.kind == "div":
                d = e.den
                if isinstance(d, Poly) and (d.const() not in (None, 0) or ctx.quick(d - 1)): s.closed += 1
                elif isinstance(d, Poly) and outside(eq0(d)): s.env += 1
                else: s.open.append(e); keep.add(e.uid)
        s.gen = inst.Gen(ev, only=lambda e: e.kind == "loop" or e.uid in keep, lets=it.letdefs)

    def valuations(s, n): return drv.valuations(s, n, 5)

    def run(s, E):
        E = drv.Env({**drv.MACHINE, **E})
        h = inst.Host(E, s.gen.objs, {})
        try: s.gen.run(E, h)
        except (inst.Stop, ValueError, OverflowError, ZeroDivisionError, TypeError, MemoryError): pass
        return [(r, e.loc(), t) for r, e, t in h.bad]


class TJob(RJob):
    """transpose_mat on its own"""
    kind = "transpose"

    def __init__(s):
        import transpose
        N.Interp.ends = True
        p = F.program(["transpose_mat"], skip=("dense.cpp", "blis_pack_haswell.cpp"), tag="transpose")
        s.t = transpose.TJob(I.Module(p))
        s.name, s.scn = "transpose_mat", s.t
        s.setup(s.t.it, s.t.ev, [sym("K") - 1, sym("N") - 1])

    def valuations(s, n): return s.t.valuations(n)


def no(ctx, b):
    """certainly never true"""
    if b is FALSE: return True
    for c in b.support():
        v = ctx.dlit(c) if c.op == "ge0" and len(all_atoms(c.p)) < 6 else None
        if v is not None: b = restrict(b, bvar(c) if v else bnot(bvar(c)))
    if b is FALSE: return True
    if len(b.support()) > 8: return False
    return ctx.decide(b) is FALSE


def outside(b):
    """taken only for some answer of the system (a pipe that does not open, the text of a probe)"""
    for c in b.support():
        if c.op == "op": return True
        for x in (c.p if isinstance(c.p, tuple) else (c.p,)):
            if isinstance(x, Poly) and any(a.kind in ("unk", "op") for a in all_atoms(x)): return True
    return False


def scenarios():
    S = D.Scenario
    r = []
    for sch in ("KMN", "MKN", "NKM"):
        r += [S("cake_sgemm %s" % sch, "cake_sgemm", sch), S("cake_sgemm %s, caller's tile" % sch, "cake_sgemm", sch, user=True),
              S("cake_sgemm %s, derived tile" % sch, "cake_sgemm", sch, raw=True),
              S("cake_sgemm %s, own context" % sch, "cake_sgemm", sch, noctx=True),
              S("pre-packed A and B, %s" % sch, "verif_prepacked", sch, packedA=True, packedB=True),
              S("pre-packed A, %s" % sch, "verif_prepacked", sch, packedA=True),
              S("pre-packed B, %s" % sch, "verif_prepacked", sch, packedB=True),
              S("pack_C then unpack_C, %s" % sch, "verif_roundtrip", sch)]
        if sch != "KMN": r.append(S("cake_sgemm %s beta!=0" % sch, "cake_sgemm", sch, beta=1))
    r.append(S("cake_sgemm, derived schedule and tile", "cake_sgemm", "NA", raw=True))
    for e in ("cake_sgemm_online", "cake_sgemm_2d"):
        r += [S(e, e), S("%s, caller's tile" % e, e, user=True), S("%s, derived tile" % e, e, raw=True)]
    r.append(S("cake_sgemm_online, own context", "cake_sgemm_online", noctx=True))
    return r


def c27(rep):
    rep.technique = "reachability conditions of process ends and continuation conditions of loops in the interpreted entry points"
    P = D.Program.get()
    jobs = [RJob(s, P) for s in scenarios()] + [TJob()]
    N.Interp.ends = False
    for j in jobs:
        ev = [e for e, _ in N.walk(j.scn.ev)]
        rep.count("scenarios")
        for k, t in zip(KINDS, ("loops", "process ends", "integer divisions")): rep.count(t, sum(1 for e in ev if e.kind == k))
        rep.count("conditions refuted from sign facts", j.closed)
        rep.count("conditions on answers of the system (C19)", j.env)
        for e in j.unsure: rep.undec("ends", "%s: loop at %s" % (j.name, e.loc()))
        for e, w in j.gen.skipped: rep.undec("ends", "%s: %s at %s: %s" % (j.name, e.kind, e.loc(), w[:60]))
    n = 4000 if drv.THOROUGH else 600
    cnt, res = drv.sweep([j for j in jobs if j.open], n)
    rep.count("valuations", cnt)
    act = [j for j in jobs if j.open]
    seen = set()
    for ji, rule, where, text, E in res:
        if rule not in ("process end", "endless loop", "divzero") or (rule, where) in seen: continue
        seen.add((rule, where))
        rep.violation(rule, where, "%s: %s   [%s]" % (act[ji].name, text, ", ".join("%s=%s" % x for x in E.items())))
    for j in jobs: rep.ok("returns", "%s: %d conditions refuted, %d without a valuation among %d" % (j.name, j.closed, len(j.open), n), j.closed + len(j.open))
    rep.need("loops", 60)
    rep.need("process ends", 20)
