"""C06, scalar part: what a parallel region shares by reference is not written by its iterations."""
import units as U
from interp import loc

OPEN = {"__kmpc_critical": "__kmpc_end_critical", "__kmpc_critical_with_hint": "__kmpc_end_critical", "__kmpc_single": "__kmpc_end_single",
        "__kmpc_master": "__kmpc_end_master", "__kmpc_masked": "__kmpc_end_masked", "__kmpc_ordered": "__kmpc_end_ordered",
        "__kmpc_reduce": "__kmpc_end_reduce", "__kmpc_reduce_nowait": "__kmpc_end_reduce_nowait"}


def protected(fn):
    """instructions inside a mutual-exclusion construct on every path"""
    _, _, rpo, _, _ = U.N.loop_forest(fn)
    inn = {fn.blocks[0]: frozenset()}
    prot = set()
    ch = True
    while ch:
        ch = False
        for b in rpo:
            st = inn.get(b)
            if st is None: continue
            st = set(st)
            for i in b.ins:
                n = U.callee(i) if i.op == "call" else None
                if n in OPEN: st.add(OPEN[n])
                elif n in st: st.discard(n)
                if st: prot.add(i)
                else: prot.discard(i)
            for q in b.succ:
                new = frozenset(st) if q not in inn else inn[q] & frozenset(st)
                if inn.get(q) != new:
                    inn[q] = new
                    ch = True
    return prot


def lastprivate(fn):
    """blocks that only the thread of the last iteration runs"""
    d = U.Dom(fn)
    flags = set()
    for b, i in U.instrs(fn):
        if i.op == "call" and (U.callee(i) or "").startswith("__kmpc_for_static_init"): flags.add(i.args[3])
    r = set()
    for b in fn.blocks:
        t = b.ins[-1]
        if t.op != "br" or not t.ops: continue
        c = t.ops[0]
        if getattr(c, "op", "") == "icmp" and any(getattr(x, "op", "") == "load" and x.ops[0] in flags for x in c.ops):
            for q in b.succ:
                if len(q.pred) == 1 and c.pred == "ne" and q is t.succ[0]: r |= {x for x in fn.blocks if d.dom(q, x)}
    return r


def scalars(rep):
    n = 0
    for u in U.load():
        for f in u.mod.funcs.values():
            if "omp_outlined" not in f.name or not f.blocks: continue
            rep.count("parallel regions")
            prot, last = protected(f), lastprivate(f)
            caps = [a for a in f.args[2:] if a.ty.k == "ptr"]
            rep.count("variables shared by reference", len(caps))
            bad = False
            for b, i in U.instrs(f):
                if i.op == "store": p = i.ops[1]
                elif i.op == "call" and (U.callee(i) or "").startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove", "memset", "memcpy")): p = i.args[0]
                else: continue
                r, const = U.base(p)
                if r in caps and const and i not in prot and b not in last:
                    bad = True
                    rep.violation("shared scalar", loc(i).split(" ")[0], "%s: every iteration writes the variable %s, which all threads share" % (U.name(f), r.name))
                elif r in caps and const is False: rep.count("indexed writes to shared arrays")
            # a call that receives the address of a shared variable
            for b, i in U.instrs(f):
                if i.op != "call": continue
                g = getattr(i, "callee", None)
                nm = U.callee(i) or ""
                if nm.startswith(("llvm.", "__kmpc", "printf")) or not hasattr(g, "blocks") or not g.blocks: continue
                for a, x in zip(i.args, g.args):
                    r, const = U.base(a)
                    if r in caps and writes(g, x, set()):
                        bad = True
                        rep.violation("shared scalar", loc(i).split(" ")[0], "%s: passes the shared variable %s to %s, which writes it" % (U.name(f), r.name, nm))
            if not bad: rep.ok("shared-by-reference variables are only read", "%s, %d captured" % (U.name(f), len(caps)))
    rep.need("parallel regions", 5)


def writes(g, arg, seen):
    if (g, arg) in seen: return False
    seen.add((g, arg))
    for b, i in U.instrs(g):
        if i.op == "store":
            r, c = U.base(i.ops[1])
            if r is arg and c: return True
        if i.op == "call" and hasattr(i.callee, "blocks") and i.callee.blocks:
            for a, x in zip(i.args, i.callee.args):
                if U.base(a)[0] is arg and writes(i.callee, x, seen): return True
    return False
