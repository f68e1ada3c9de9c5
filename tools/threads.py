"""C25: every parallel region of an entry point runs with the number of threads the caller asked for.

The entry points are interpreted with the requests that decide the size of a team kept as events
(omp_set_num_threads, num_threads clauses, the serialised branch of an if clause) next to the start of every
region.  Along the event order, loop bodies taken twice, the request in force at each region must be p.
"""
import time
import common, frontend as F, drivers as D, drv, interp as N
from frontend import Broken
from ev import Eval
from inst import Opaque
from expr import *

MORE = ["cake_sgemm_2d_small", "cake_sgemm_test"]
ROOTS = ("M", "N", "K", "p", "mu", "nu", "kc", "pm", "pn", "beta")


class Unsure(Exception): pass


class Walk:
    """the requests and regions one valuation meets, in order"""

    def __init__(s, it, env, default):
        s.it, s.env, s.ev = it, env, Eval(env)
        s.now = default
        s.lets = {a if not isinstance(a, Poly) else next(iter(a.atoms())): v for a, v in it.letdefs.items()}
        s.out, s.steps, s.soft = [], 0, False

    def known(s, x, seen=None):
        """only the caller's arguments, context fields and loop indices decide it"""
        for a in all_atoms(x):
            if a in s.env: continue
            if a in s.lets:
                d = s.lets[a]
                ok, v = s.value(d)
                if ok is None: raise Unsure(str(a)[:60])
                s.env[a] = v
            elif a.kind == "sym" and a.args[0] in s.env: continue
            elif a.kind == "sym" and (a.args[0].startswith("cake_cntx.") or a.args[0] in ("mcu", "kcu", "ncu")):
                s.env[a.args[0]] = drv.MACHINE.get(a.args[0], 3)
            elif a.kind in ("sym", "unk", "ld", "op", "ph"): raise Unsure(str(a)[:60])

    def value(s, x):
        try:
            if x is TRUE or x is FALSE: return True, x is TRUE
            s.known(x)
            e = Eval(s.env)
            return True, (e.poly(x) if isinstance(x, Poly) else e.bdd(x))
        except (Unsure, Opaque, ValueError, ZeroDivisionError, TypeError, KeyError) as u: return None, str(u)

    def run(s, evs):
        for e in evs:
            if s.steps > 4000: return
            s.steps += 1
            ok, g = s.value(e.guard)
            if ok and not g: continue
            if e.kind == "loop":
                k, T = s.value(e.T)
                for i in range(2 if k is None else min(2, int(T))):
                    s.env[e.lv] = i
                    s.run(e.body)
                    s.env.pop(e.lv, None)
                continue
            if e.body is not None: s.run(e.body)
            if e.kind == "team" and e.name == "omp_get_max_threads":
                for a in all_atoms(e.val): s.env[a] = s.now
                continue
            if e.kind == "team":
                k, v = s.value(e.val) if e.val is not None else (True, 1)
                s.out.append((e, ok is not None, v if k else None))
                if e.name == "omp_set_num_threads" and ok and k: s.now = v


def judge(out, p, default):
    """(violations, undecided, regions) of one walk; states: the settings that may be in force"""
    bad, und, n = [], [], 0
    cur, push = [(None, True, default)], None
    for e, sure, v in out:
        if e.name == "omp_set_num_threads": cur = ([] if sure else cur) + [(e, sure, v)]
        elif e.name == "__kmpc_push_num_threads": push = ([] if sure else cur) + [(e, sure, v)]
        elif e.name == "omp_set_dynamic":
            if v != 0: (bad if sure and v is not None else und).append((e, "may get fewer threads: the number of threads is made dynamic"))
        elif e.name == "omp_set_max_active_levels":
            if v is None or v < 1: (bad if sure and v is not None else und).append((e, "is serialised: no parallel region may be active"))
        else:
            n += 1
            st = push if push and e.name == "__verif_fork" else [(e, sure, 1)] if e.name != "__verif_fork" else cur
            push = None
            for src, sure2, w in st:
                if w is None: und.append((e, "number of threads set at %s is not in closed form" % src.loc()))
                elif w != p: (bad if sure and len(st) == 1 else und).append((e, "runs with %s threads (%s) where the caller asked for %s" % (w, src.loc() if src else "whatever the environment or an earlier call left", p)))
    return bad, und, n


VALS = [dict(M=M, N=Nn, K=K, p=p, mu=mu, nu=nu, kc=kc, pm=pm, pn=pn, beta=1.0) for M, Nn, K in ((1, 1, 1), (50, 70, 40), (300, 40, 90))
        for p, pm, pn in ((1, 1, 1), (2, 2, 1), (3, 1, 2), (4, 2, 2), (7, 3, 2)) for mu, nu, kc in ((1, 1, 1), (2, 3, 20))]


def c25(rep):
    rep.technique = "ordered walk of team-size requests and region starts in the interpreted entry points"
    lls = F.compile_all()
    have = {F.demangle_name(m) for q in lls.values() for m in names(q)}
    P = D.Program(D.ENTRIES[:3] + [x for x in MORE if x in have], tag="teams", marks=True)
    S = D.Scenario
    scn = [S("cake_sgemm %s" % x, "cake_sgemm", x) for x in ("KMN", "MKN", "NKM")]
    scn += [S("cake_sgemm %s beta!=0" % x, "cake_sgemm", x, beta=1) for x in ("MKN", "NKM")]
    scn += [S("cake_sgemm pre-packed KMN", "cake_sgemm", "KMN", packedA=True, packedB=True)]
    scn += [S("cake_sgemm %s, own context" % x, "cake_sgemm", x, noctx=True) for x in ("KMN", "MKN", "NKM")]
    scn += [S(x, x) for x in D.ENTRIES[1:3]] + [S(D.ENTRIES[1] + ", own context", D.ENTRIES[1], noctx=True)]
    scn += [S(x, x) for x in MORE if x in have]
    for r in common.fork_map(lambda s: one(s, P), scn):
        rep.merge(r)
    rep.samples = rep.samples[:6]
    rep.need("entry points x schedules", 8)
    rep.need("parallel regions", 10)


def one(s, P):
    """one scenario, in a worker"""
    rep = common.Report("C25")
    N.Interp.teams = True
    try: s.load(P)
    except Broken:
        if s.entry not in MORE: raise
        rep.undec("summary", s.name)
        return rep
    regions = sum(1 for e, _ in N.walk(s.ev) if e.kind == "team" and e.name == "__verif_fork")
    if not regions: rep.undec("team size", "%s starts no parallel region" % s.name)
    rep.count("entry points x schedules")
    rep.count("parallel regions", regions)
    rep.count("requests", sum(1 for e, _ in N.walk(s.ev) if e.kind == "team" and e.val is not None))
    seen, sus = set(), set()
    t0 = time.time()
    for q, E in enumerate(VALS):
        if time.time() - t0 > 150: break
        default = (16, 1, 5)[q % 3]          # what OMP_NUM_THREADS or an earlier call left behind
        w = Walk(s.it, dict(E), default)
        w.run(s.ev)
        bad, und, n = judge(w.out, E["p"], default)
        rep.count("regions judged", n)
        for e, t in bad:
            if (e.loc(), t.split(" ")[0]) in seen: continue
            seen.add((e.loc(), t.split(" ")[0]))
            rep.violation("team size", e.loc(), "%s: the parallel region %s   [%s]" % (s.name, t, ", ".join("%s=%s" % x for x in E.items())))
        for e, t in und: sus.add((e.loc(), t))
    for l, t in sorted(sus)[:5]: rep.undec("team size", "%s: %s %s" % (s.name, l, t))
    if not seen and not sus: rep.ok("team size", "%s: all %d regions run with p threads" % (s.name, regions), regions)
    return rep


def names(q):
    import re
    return re.findall(r"(?m)^define [^@]*@([\w.$]+)\(", open(q).read())
