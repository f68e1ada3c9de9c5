"""Per-translation-unit IR (not inlined, OpenMP outlining intact) and small helpers over it."""
import os, re
import frontend as F, irload as I, interp as N
from frontend import Broken


class Unit:
    pass


def load(kind="haswell", passes="function(sroa)", openmp=True, skip=("kernels/",)):
    """[(source name, Module)]"""
    lls = F.compile_all(kind, openmp)
    r = []
    o = os.path.join(F.scratch(), "units_" + re.sub(r"\W", "_", passes) + ("_omp" if openmp else ""))
    os.makedirs(o, exist_ok=True)
    for src, p in sorted(lls.items()):
        if any(s in src for s in skip) or "verif_client" in src: continue
        q = os.path.join(o, os.path.basename(p))
        if passes: F.run([F.OPT, "-S", p, "-o", q, "-passes=" + passes])
        else: q = p
        u = Unit()
        u.src, u.path, u.mod = src, q, I.Module(q)
        u.text = None
        r.append(u)
    return r


def name(f):
    """readable name of a function, outlined regions included"""
    n = f.name if hasattr(f, "name") else f
    return F.demangle_name(n) + (" (parallel region)" if "omp_outlined" in n else "")


def callee(i):
    c = getattr(i, "callee", None)
    return F.demangle_name(c.name) if c is not None and hasattr(c, "blocks") else None


def base(v, const=True, seen=None):
    """(root value, offset is constant) of an address"""
    while True:
        if getattr(v, "kind", "") == "instr":
            if v.op == "gep":
                if any(getattr(x, "kind", "") != "const" for x in v.ops[1:]): const = False
                v = v.ops[0]
                continue
            if v.op in ("bitcast", "addrspacecast", "freeze"):
                v = v.ops[0]
                continue
        return v, const


def instrs(fn):
    for b in fn.blocks:
        for i in b.ins: yield b, i


class Dom:
    def __init__(s, fn):
        _, _, s.rpo, s.idom, s.num = N.loop_forest(fn)

    def dom(s, a, b):
        """block a dominates block b"""
        if a not in s.num or b not in s.num: return False
        while s.num[b] > s.num[a]: b = s.idom[b]
        return a is b
