"""C18: transpose_mat, in closed form down to the lanes of its vector kernel."""
import frontend as F, irload as I, interp as N, inst, drv
from frontend import Broken
from expr import *


class TJob:
    kind = "transpose"

    def __init__(s, mod):
        fn = {F.demangle_name(n): f for n, f in mod.funcs.items() if f.blocks}.get("transpose_mat")
        if fn is None: raise Broken("transpose_mat not found")
        want = ["A_old", "At", "K", "N", "Kt", "Nt"]
        if len(fn.args) != 6: raise Broken("transpose_mat has %d parameters, expected 6" % len(fn.args))
        args = {}
        s.it = N.Interp(mod, fn, {a.name: sym(w) for a, w in zip(fn.args, want) if a.ty.k == "int"}).run()
        s.ev = s.it.events
        s.gen = inst.Gen(s.ev, lets=s.it.letdefs)
        s.ids = {w: s.it.env[a].obj.id for a, w in zip(fn.args, want) if a.ty.k == "ptr"}
        s.name = "transpose_mat"

    def valuations(s, n):
        R = drv.rng("transpose")
        for i in range(n):
            f = lambda: R.choice((R.randint(1, 9), R.randint(1, 40), 8 * R.randint(1, 4), 8 * R.randint(1, 4) + R.choice((-1, 1, 0))))
            yield {"K": f(), "N": f(), "Kt": R.choice((f(), 1, 8, 16, 100)), "Nt": R.choice((f(), 1, 8, 16, 100)), "M": 1}

    def run(s, E):
        E = drv.Env(E)
        n = E["K"] * E["N"]
        h = inst.Host(E, s.gen.objs, {s.ids["A_old"]: ("A_old", 4 * n), s.ids["At"]: ("C", 4 * n)})
        h.name[(s.ids["At"],)] = "C"
        s.gen.run(E, h)
        bad = [(r, e.loc(), t) for r, e, t in h.bad]
        m = h.mem[(s.ids["At"],)]
        for k in range(E["K"]):
            for c in range(E["N"]):
                o = 4 * (c * E["K"] + k)
                v = m.get(o)
                if v != {(("A_old", 4 * (k * E["N"] + c)),): 1}:
                    w = h.writer.get(o)
                    t = "is never stored" if v is None else "gets %s" % ("an undefined value" if v is inst.UNDEF else
                        " + ".join("%s[%d][%d]" % ((x,) + divmod(y // 4, E["N"])) for t in v for x, y in t) or "0")
                    bad.append(("element", w.loc() if w else "src/transpose.cpp", "At[%d][%d] %s instead of A_old[%d][%d]" % (c, k, t, k, c)))
                    return bad
        return bad


def c18(rep, rules=("element", "bounds", "race")):
    rep.technique = "closed-form access relations of transpose_mat and its 8x8 / edge kernels; counterexample search"
    p = F.program(["transpose_mat"], skip=("dense.cpp", "blis_pack_haswell.cpp"), tag="transpose")
    j = TJob(I.Module(p))
    dull = drv.taint(j.gen, j.it, j.ev)
    for w in dull: rep.undec("summary", w)
    k = [e.kind for e, _ in N.walk(j.ev)]
    rep.count("access relations", len([x for x in k if x in ("load", "store")]))
    rep.count("parallel loops", sum(1 for e, _ in N.walk(j.ev) if e.kind == "loop" and e.par))
    if "store" not in k: raise Broken("no store in the summary of transpose_mat")
    thorough = drv.THOROUGH
    n = 6000 if thorough else 1500
    cnt, res = drv.sweep([j], n)
    rep.count("valuations", cnt)
    seen = set()
    for _, rule, where, text, E in res:
        if (rule, where) in seen or len(rules) == 1 and rule not in rules: continue
        seen.add((rule, where))
        if dull: rep.undec(rule, "%s (the summary is not exact)" % where)
        else: rep.violation(rule, where, "%s   [%s]" % (text, ", ".join("%s=%s" % x for x in E.items())))
    for r in rules if not dull else (): rep.ok(r, "no counterexample at %d valuations" % cnt)
