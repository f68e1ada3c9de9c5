"""The GEMM drivers as whole-program summaries: one scenario = entry point x schedule x flags."""
import os, re, shutil
import frontend as F, irload as I, interp as N
from frontend import Broken
from expr import *
from prover import Ctx

ENTRIES = ["cake_sgemm", "cake_sgemm_online", "cake_sgemm_2d", "verif_prepacked", "verif_roundtrip"]


def layouts(path):
    """{struct name: {byte offset: member}} from the debug info of the linked module"""
    t = open(path).read()
    md = dict(re.findall(r"(?m)^!(\d+) = (?:distinct )?(!.*)$", t))
    out = {}
    for k, v in md.items():
        m = re.match(r'!DIDerivedType\(tag: DW_TAG_typedef, name: "(\w+)".*baseType: !(\d+)', v) or \
            re.match(r'!DICompositeType\(tag: DW_TAG_structure_type, name: "(\w+)"', v)
        if not m: continue
        c = md.get(m.group(2), "") if m.lastindex == 2 else v
        if "DW_TAG_structure_type" not in c: continue
        e = re.search(r"elements: !(\d+)", c)
        if not e: continue
        f = {}
        for q in re.findall(r"!(\d+)", md[e.group(1)]):
            mm = re.match(r'!DIDerivedType\(tag: DW_TAG_member, name: "(\w+)"', md[q])
            if mm:
                o = re.search(r"offset: (\d+)", md[q])
                f[int(o.group(1)) // 8 if o else 0] = mm.group(1)
        out[m.group(1)] = f
    return out


class Program:
    _p = None

    def __init__(s, entries=ENTRIES, **kw):
        s.path = F.program(entries, **kw)
        s.lay = layouts(s.path)
        for n in ("blk_dims_t", "cake_cntx_t"):
            if n not in s.lay: raise Broken("type %s not found" % n)
        s.names = {}
        for st, f in s.lay.items():
            for o, n in f.items():
                for pre in ("struct.", "class."): s.names[(pre + st, o)] = n
        s.mod = I.Module(s.path)
        s.fns = {}
        for n, f in s.mod.funcs.items():
            if f.blocks: s.fns[F.demangle_name(n)] = f
        s.enum = enum(s.path, "sched")

    @classmethod
    def get(c):
        if c._p is None: c._p = c()
        return c._p


def enum(path, name):
    t = open(path).read()
    md = dict(re.findall(r"(?m)^!(\d+) = (?:distinct )?(!.*)$", t))
    for v in md.values():
        if v.startswith('!DICompositeType(tag: DW_TAG_enumeration_type, name: "%s"' % name):
            e = re.search(r"elements: !(\d+)", v).group(1)
            r = {}
            for q in re.findall(r"!(\d+)", md[e]):
                m = re.match(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', md[q])
                r[m.group(1)] = int(m.group(2))
            return r
    raise Broken("enum %s not found" % name)


KERNEL = lambda n: n.startswith(("cake_sgemm_haswell", "cake_sgemm_armv8"))
TILE = {"m_c": ("mu", "mr"), "n_c": ("nu", "nr"), "k_c": ("kc", None), "pm": ("pm", None), "pn": ("pn", None)}


class Scenario:
    """closed-form summary of one entry point under fixed flags; the tile sizes that the block sizing derives are
    replaced by free symbols constrained by the tile contract (C17), so everything below holds for every tile"""

    def __init__(s, name, entry, sch=None, beta=0, packedA=False, packedB=False, user=False, raw=False, noctx=False):
        s.name, s.entry, s.sch, s.beta, s.packedA, s.packedB, s.user, s.raw, s.noctx = name, entry, sch, beta, packedA, packedB, user, raw, noctx
        s.contract = {}                    # field -> [(value before the cut, symbol, instruction)]

    def load(s, P):
        s.P = P
        fn = P.fns.get(s.entry)
        if fn is None: raise Broken("entry point %s not found" % s.entry)
        s.mr, s.nr = sym("cake_cntx.mr"), sym("cake_cntx.nr")
        tile = {"m_c": s.mr * sym("mu"), "n_c": s.nr * sym("nu"), "k_c": sym("kc"), "pm": sym("pm"), "pn": sym("pn")}
        args = dict(packedA=TRUE if s.packedA else FALSE, packedB=TRUE if s.packedB else FALSE, alpha=ONE,
                    beta=ZERO if s.beta == 0 else sym("beta"))
        if s.sch: args["sch"] = poly(P.enum[s.sch])
        if s.user: args.update(mcu=tile["m_c"], kcu=tile["k_c"], ncu=tile["n_c"])
        else: args.update(mcu=ZERO, kcu=ZERO, ncu=ZERO)
        if s.noctx: args["cake_cntx"] = N.Ptr(N.NULL, 0)
        have = {a.name for a in fn.args}
        for a in ("A", "B", "C", "M", "N", "K", "p", "cake_cntx"):
            if a not in have: raise Broken("%s has no parameter %s" % (s.entry, a))
        simple = lambda V: all(a.kind == "sym" and not a.args[0].startswith("let.") for a in V.atoms())
        cuts, cutins = {}, {}
        POS.clear()
        POS.update(Atom("sym", a) for a in ("M", "N", "K", "p"))
        for rnd in range(1 if s.raw else 4):
            s.contract = {}
            seen, src = {}, {}

            s.contract_all = {}

            def cf(it, o, off, v, ins):
                st = getattr(o, "struct", "") or ""
                f = P.names.get((st, off))
                if f not in TILE or not isinstance(v, Poly): return None
                s.contract_all.setdefault(f, []).append((v, ins))
                if s.raw: return None
                if simple(v) or v.const() is not None:
                    if v is not tile[f]: s.contract.setdefault(f, []).append((v, v, ins))
                    return None
                seen.setdefault(v.id, set()).add(f)
                s.contract.setdefault(f, []).append((v, tile[f], ins))
                if ins.op == "store": src.setdefault(ins.ops[0], set()).add(f)
                return tile[f]
            it = N.Interp(P.mod, fn, args, names=P.names, kernel=KERNEL, cuts=cuts, cutfield=cf, lets=True)
            it.cutins, it.cutok = cutins, lambda v: not simple(v) and v.const() is None
            it.run()
            vals = {v: f for f, l in s.contract.items() for v, t, _ in l if not simple(v) and v.const() is None}
            new = {v.id: tile[f] for v, f in vals.items() if len(seen.get(v.id, ())) == 1 and v.id not in cuts}
            newins = {i: tile[next(iter(l))] for i, l in src.items() if len(l) == 1 and i not in cutins}
            if not new and not newins: break
            cuts, cutins = {**cuts, **new}, {**cutins, **newins}
        POS.clear()
        s.it = it
        s.ev = it.events
        s.tile = tile
        return s


def scenarios(P):
    r = []
    for sch in ("KMN", "MKN", "NKM"):
        r.append(Scenario("cake_sgemm %s" % sch, "cake_sgemm", sch))
    for sch in ("MKN", "NKM"):
        r.append(Scenario("cake_sgemm %s beta!=0" % sch, "cake_sgemm", sch, beta=1))
    r.append(Scenario("cake_sgemm_online", "cake_sgemm_online"))
    r.append(Scenario("cake_sgemm_2d", "cake_sgemm_2d"))
    return r
