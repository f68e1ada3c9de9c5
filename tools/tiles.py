"""C13: the micro-kernel that runs always has the register tile the data was packed for.

The set of generated kernels is taken from the generated translation unit; the dispatch table, the index the context
carries for a tile and the index every driver uses are followed symbolically and composed.
"""
import re
import typestate as T, interp as N, units as U, frontend as F, drivers as D, drv, dispatch, inst
from frontend import Broken
from common import fork_map
from interp import loc
from expr import *

FIELDS = ("mr", "nr", "m_map", "n_map")
KN = re.compile(r"cake_sgemm_(?:haswell|armv8)_(\d+)x(\d+)$")


def tile_of(name):
    m = KN.fullmatch(F.demangle_name(name))
    return (int(m.group(1)), int(m.group(2))) if m else None


def generated(us):
    r = {}
    for u in us:
        for f in u.mod.funcs.values():
            t = tile_of(f.name)
            if t and f.blocks: r[t] = U.name(f)
    return r


class Lets(dict):
    """named intermediate values under a substitution, on demand"""
    def __init__(s, lets, mp): s.d, s.mp = {a if not isinstance(a, Poly) else next(iter(a.atoms())): v for a, v in lets.items()}, mp
    def __contains__(s, a): return a in s.d
    def __getitem__(s, a): return Subst(s.mp)(s.d[a])


def const(v, mp, lets):
    """value set of v under the substitution"""
    if not isinstance(v, Poly): return {None}
    v = Subst(mp)(v)
    if v.const() is not None: return {v.const()}
    old, dispatch.LETS = dispatch.LETS, Lets(lets, mp)
    try: return dispatch.leaves(v)
    finally: dispatch.LETS = old


def tables(rep, us, kern):
    """every dispatch table of the program, flattened"""
    r = {}
    for u in us:
        for g in u.mod.globals.values():
            if not g.v["init"] or not N.is_fn_table(g): continue
            ent = []
            off = 0
            while off < g.ty.size:
                e = N.table_entry(g.v["init"], g.ty, off)
                ent.append(F.demangle_name(e.name) if e is not None and hasattr(e, "blocks") else None)
                off += 8
            if not any(e and KN.fullmatch(e) for e in ent): continue
            r[u.src, F.demangle_name(g.name)] = ent
            rep.count("dispatch tables")
            rep.count("table entries", len(ent))
            lost = [k for t, k in kern.items() if k not in ent]
            if lost: rep.violation("table complete", "%s %s" % (u.src, F.demangle_name(g.name)), "the dispatch table has no entry for %s" % ", ".join(lost))
            else: rep.ok("table complete", "%s: %s" % (u.src, ent))
            if any(e is None for e in ent): rep.violation("table complete", "%s %s" % (u.src, F.demangle_name(g.name)), "the dispatch table has an empty entry: %s" % ent)
            if not g.v["const"] and stored(u, g): rep.violation("table constant", "%s %s" % (u.src, F.demangle_name(g.name)), "the dispatch table is written at run time")
            else: rep.ok("table constant")
    return r


def stored(u, g):
    for f in u.mod.funcs.values():
        for b, i in U.instrs(f) if f.blocks else ():
            if i.op == "store" and U.base(i.ops[1])[0] is g: return True
    return False


def entry(tabs, gname, off):
    c = {e[off // 8] if 0 <= off < 8 * len(e) and off % 8 == 0 else "outside the table" for (s, n), e in tabs.items() if n == gname}
    return c


def setters(rep, mod, fs, lay, kern):
    """functions that set the tile of a context; returns the map (mr,nr) -> (m_map,n_map)"""
    names = {}
    for st, fl in lay.items():
        for o, n in fl.items(): names[("struct." + st, o)] = n
    callers, direct, heavy = {}, set(), set()
    for u in U.load():
        for f in u.mod.funcs.values():
            if not f.blocks: continue
            if writes_fields(f, lay): direct.add(U.name(f).replace(" (parallel region)", ""))
            for b, i in U.instrs(f):
                if i.op == "call" and U.callee(i): callers.setdefault(U.callee(i), set()).add(U.name(f))
                if i.op == "call" and i.callee is not None and not hasattr(i.callee, "blocks"): heavy.add(U.name(f))
    byname = {U.name(f): f for f in fs}
    work, seen = sorted(direct), set()
    maps = {}
    rows = []
    while work:
        nm = work.pop(0)
        if nm in seen: continue
        seen.add(nm)
        f = byname.get(nm)
        if f is None:                                   # internal: judged where it is called
            work += sorted(callers.get(nm, ()))
            continue
        if nm in heavy or any(i.op == "call" and "__verif_par_begin" in (U.callee(i) or "") for b, i in U.instrs(f)):
            rep.undec("tile and index agree", "%s sets the tile inside a driver" % nm)
            continue
        it = N.Interp(mod, f, {}, names=names, lets=True)
        it.run()
        for c, rv, mem in it.rets:
            if c is FALSE: continue
            per = {}
            for k, v in mem.items():
                if len(k) != 2: continue
                n = names.get((getattr(k[0], "struct", "") or "", k[1]))
                if n in FIELDS and (getattr(k[0], "struct", "") or "").endswith("cake_cntx_t"): per.setdefault(k[0], {})[n] = v
            for o, d in per.items():
                init = {n: it_sym(n) for n in FIELDS}
                changed = {n: v for n, v in d.items() if not (isinstance(v, Poly) and v is sym("cake_cntx." + n) or v is sym("%s.%s" % (o.name, n)))}
                if not changed: continue
                if set(changed) != set(FIELDS) and nm in callers: work += sorted(callers[nm])     # part of a setter
                else: rows.append((f, it, o, d, changed))
    for f, it, o, d, changed in rows:
        nm = U.name(f)
        rep.count("functions setting the tile")
        where = site(f, lay) + " " + nm
        miss = [n for n in FIELDS if n not in changed]
        if miss:
            rep.violation("tile and index agree", where, "%s sets %s but leaves %s as it was" % (nm, ", ".join(sorted(changed)), ", ".join(miss)))
            continue
        mrs, nrs = changed["mr"], changed["nr"]
        ps = [a for v in (mrs, nrs) for a in v.atoms()] if isinstance(mrs, Poly) and isinstance(nrs, Poly) else []
        if mrs.const() is not None and nrs.const() is not None: cases = [((mrs.const(), nrs.const()), {})]
        elif mrs is sym_of(mrs) and nrs is sym_of(nrs) and mrs is not nrs:
            cases = [(t, {next(iter(mrs.atoms())): poly(t[0]), next(iter(nrs.atoms())): poly(t[1])}) for t in kern]
        else:
            # a computed tile: whatever it is, it must be one of the generated ones
            got = {(a, b) for a in const(mrs, {}, it.letdefs) for b in const(nrs, {}, it.letdefs)}
            if any(None in g for g in got):
                rep.undec("tile and index agree", "%s derives its tile: %r x %r" % (nm, mrs, nrs))
                continue
            cases = [(t, {}) for t in got]
        for t, mp in cases:
            if t not in kern:
                rep.violation("tile has a kernel", where, "%s selects a %d x %d tile, for which no kernel is generated" % ((nm,) + t))
                continue
            a, b = const(changed["m_map"], mp, it.letdefs), const(changed["n_map"], mp, it.letdefs)
            if None in a | b or len(a) != 1 or len(b) != 1:
                rep.undec("tile and index agree", "%s: index of %dx%d" % ((nm,) + t))
                continue
            maps.setdefault(t, {}).setdefault((a.pop(), b.pop()), []).append((nm, where))
    for t, m in maps.items():
        if len(m) > 1:
            rep.violation("tile and index agree", " / ".join(w for l in m.values() for _, w in l), "the %d x %d tile gets different table positions: %s" % (
                t + ("; ".join("%s in %s" % (k, ", ".join(n for n, _ in l)) for k, l in m.items()),)))
    return maps


def it_sym(n): return sym("cake_cntx." + n)


def sym_of(P):
    a = list(P.atoms())
    return poly(a[0]) if len(a) == 1 and a[0].kind == "sym" else None


def writes_fields(f, lay):
    for b, i in U.instrs(f):
        if i.op == "store" and getattr(i.ops[1], "op", "") == "gep": 
            if fieldname(i.ops[1], lay) in FIELDS: return True
        elif i.op == "store" and 0 in [o for o, n in lay["cake_cntx_t"].items() if n in FIELDS]: return True
    return False


def fieldname(g, lay):
    if g.srcty.k == "struct" and g.srcty.name and len(g.ops) == 3 and getattr(g.ops[2], "kind", "") == "const":
        return lay.get(g.srcty.name.split(".")[-1], {}).get(g.srcty.offs[g.ops[2].v])


def site(f, lay):
    for b, i in U.instrs(f):
        if i.op == "store" and getattr(i.ops[1], "op", "") == "gep" and fieldname(i.ops[1], lay) in FIELDS: return loc(i).split(" ")[0]
    return "?"


# ------------------------------------------------------------------ drivers
def calls(rep, P, jobs, maps, tabs, kern):
    nk = 0
    for j in jobs:
        sc = j.scn
        lets = sc.it.letdefs
        done = {}
        for e, stack in N.walk(sc.ev):
            if e.kind != "kernel": continue
            nk += 1
            ev = e.loc()
            for t, name in sorted(kern.items()):
                for (mm, nm) in maps.get(t, {}):
                    mp = {next(iter(sym("cake_cntx." + n).atoms())): poly(v) for n, v in zip(FIELDS, t + (mm, nm))}
                    if e.table is None and tile_of(e.fname) != t and not live(e, stack, mp): continue
                    done.setdefault(t, []).append(e)
                    if e.table is not None:
                        offs = const(e.table.off, mp, lets)
                        if None in offs:
                            rep.undec("kernel of the tile", "%s %s: table position %r" % (j.name, ev, e.table))
                            continue
                        got = set()
                        gname = F.demangle_name(e.table.obj.gv.name) if e.table.obj.kind == "global" else None
                        for o in offs: got |= entry(tabs, gname, o)
                        if not got:
                            rep.undec("kernel of the tile", "%s %s: call through %s" % (j.name, ev, e.table.obj))
                            continue
                    else: got = {F.demangle_name(e.fname)}
                    bad = [x for x in got if x is None or tile_of(x) != t]
                    if bad and not live(e, stack, mp): continue
                    if bad: rep.violation("kernel of the tile", ev, "%s: with a %d x %d tile the driver calls %s" % ((j.name,) + t + (bad[0],)))
                    else: rep.ok("kernel of the tile", "%s %s: %dx%d -> %s" % (j.name, ev.split(" ")[0], t[0], t[1], name))
                    a, b = const(e.args[3], mp, lets), const(e.args[4], mp, lets)
                    if a == {t[0]} and b == {t[1]}: rep.ok("kernel told its tile", "%s %s" % (j.name, ev.split(" ")[0]))
                    elif None in a | b: rep.undec("kernel told its tile", "%s %s: %r x %r" % (j.name, ev, e.args[3], e.args[4]))
                    else: rep.violation("kernel told its tile", ev, "%s: the kernel of the %d x %d tile is told %s x %s" % ((j.name,) + t + (sorted(a), sorted(b))))
        for t, name in kern.items():
            if t not in done and t in maps: rep.violation("kernel of the tile", sc.entry, "%s: no kernel is called for the %d x %d tile" % ((j.name,) + t))
    rep.count("kernel call sites x scenarios", nk)


def live(e, stack, mp):
    g = Subst(mp)(e.guard)
    for l in stack:
        if g is FALSE: break
        g = band(g, Subst(mp)(l.guard))
    return g is not FALSE


def own_context(rep, P, tabs, kern):
    """a call without a context: the context the library makes for itself"""
    def one(x):
        name, entry_, sch = x
        out = []
        sc = D.Scenario(name + " without a context", entry_, sch, noctx=True)
        sc.load(P)
        n = 0
        for e, stack in N.walk(sc.ev):
            if e.kind != "kernel": continue
            n += 1
            a, b = const(e.args[3], {}, sc.it.letdefs), const(e.args[4], {}, sc.it.letdefs)
            if e.table is not None:
                offs = const(e.table.off, {}, sc.it.letdefs)
                gname = F.demangle_name(e.table.obj.gv.name) if e.table.obj.kind == "global" else None
                got = set().union(*(entry(tabs, gname, o) for o in offs if o is not None)) if None not in offs else {None}
            else: got = {F.demangle_name(e.fname)}
            if None in a | b | got or len(a) != 1 or len(b) != 1:
                out.append(("undec", "%s %s: %s x %s" % (sc.name, e.loc(), sorted(map(str, a)), sorted(map(str, b)))))
                continue
            t = (a.pop(), b.pop())
            bad = [x for x in got if tile_of(x) != t]
            if bad: out.append(("bad", e.loc(), "%s: packs for a %d x %d tile and calls %s" % ((sc.name,) + t + (bad[0],))))
            else: out.append(("ok", "%s: %s" % (sc.name, sorted(got))))
        if not n: raise Broken("%s: no kernel call" % sc.name)
        return out
    for l in fork_map(one, (("cake_sgemm KMN", "cake_sgemm", "KMN"), ("cake_sgemm MKN", "cake_sgemm", "MKN"), ("cake_sgemm NKM", "cake_sgemm", "NKM"),
                            ("cake_sgemm_online", "cake_sgemm_online", None), ("cake_sgemm_2d", "cake_sgemm_2d", None))):
        for x in l:
            if x[0] == "ok": rep.ok("kernel of the tile", x[1])
            elif x[0] == "undec": rep.undec("kernel of the tile", x[1])
            else: rep.violation("kernel of the tile", x[1], x[2])


# ------------------------------------------------------------------ packing is for the tile of the context
class Pair:
    """one scenario at one shape, with each generated tile in turn"""

    def __init__(s, job, tiles, maps, base):
        s.job, s.tiles, s.maps, s.base, s.name = job, tiles, maps, base, job.name
        s.scn = job.scn

    def at(s, E, t):
        F_ = {**E, "cake_cntx.mr": t[0], "cake_cntx.nr": t[1], "cake_cntx.m_map": s.maps[t][0], "cake_cntx.n_map": s.maps[t][1]}
        F_["M"], F_["N"] = max(1, E["bm"] * t[0] + E["rm"]), max(1, E["bn"] * t[1] + E["rn"])
        return F_

    def run(s, E):
        ref = None
        out = []
        for t in s.tiles:
            bad = [b for b in s.job.run(s.at(E, t)) if b[0] != "align"]
            if ref is None:
                ref = bad
                if ref: return []              # wrong for the smallest tile too: not a matter of the tile
            elif bad:
                r, w, x = bad[0]
                out.append(("packed for the tile", w, "correct with a %d x %d tile, but with a %d x %d tile: %s" % (s.tiles[0] + t + (x,))))
        return out

    def valuations(s, n):
        R = drv.rng("tiles", s.job.name)
        for i in range(n):
            p = R.choice((1, 2, 3, 4))
            pm = R.choice([d for d in range(1, p + 1) if p % d == 0])
            yield {"p": p, "pm": pm, "pn": p // pm, "mu": R.choice((1, 1, 2)), "nu": R.choice((1, 1, 2)), "kc": R.choice((1, 2, 3)), "M": 1, "N": 1,
                   "K": R.randint(1, 5), "bm": R.choice((0, 1, 2, 3)), "bn": R.choice((0, 1, 2)), "rm": R.randint(0, 9), "rn": R.choice((0, 1, 7, 8, 9, 15, 17))}


def c13(rep):
    rep.technique = "composition of tile -> table index -> table entry over every context setter and every kernel call site; access relations compared across the generated tiles"
    rep.assume = ["a context holds the table position its setter gave it", "update_mr_nr is called with a tile a kernel is generated for"]
    us = U.load(skip=())
    kern = generated(us)
    rep.count("generated kernels", len(kern))
    tabs = tables(rep, us, kern)
    mod, fs = T.program()
    lay = D.layouts(T._prog["path"])
    maps = setters(rep, mod, fs, lay, kern)
    rep.need("generated kernels", 4)
    rep.need("dispatch tables", 1)
    rep.need("functions setting the tile", 1)
    if set(maps) != set(kern):
        for t in kern:
            if t not in maps: raise Broken("no table position known for the %dx%d tile" % t)
    for t in sorted(kern):
        for p in maps[t]: rep.ok("tile and index agree", "%dx%d -> [%d][%d] by %s" % (t + p + (", ".join(n for n, _ in maps[t][p]),)))
    P = D.Program.get()
    jobs = drv.jobset(P, ("gemm", "beta", "online", "packed"))
    calls(rep, P, jobs, maps, tabs, kern)
    own_context(rep, P, tabs, kern)
    rep.need("kernel call sites x scenarios", 8)
    # the packing follows the same tile
    tl = sorted(kern)
    one = {t: next(iter(maps[t])) for t in tl}
    for j in jobs:
        for w in j.taint: rep.undec("summary", "%s: %s" % (j.name, w))
    pairs = [Pair(j, tl, one, None) for j in jobs if not j.scn.raw and not j.taint]
    cnt, res = drv.sweep(pairs, 60 if drv.THOROUGH else 12)
    rep.count("shapes compared across tiles", cnt)
    seen = set()
    for ji, rule, where, text, E in res:
        if (rule, where) in seen: continue
        seen.add((rule, where))
        rep.violation(rule, where, "%s: %s   [%s]" % (pairs[ji].name, text, ", ".join("%s=%s" % x for x in E.items())))
    for p in pairs: rep.ok("packed for the tile", "%s: same verdict for all %d tiles" % (p.name, len(tl)))
    # whatever the tile, a kernel is given panels of exactly its height and width
    drv.decide(rep, "C13", 60 if not drv.THOROUGH else None)
    rep.technique = "composition of tile -> table index -> table entry over every context setter and every kernel call site; access relations compared across the generated tiles"
