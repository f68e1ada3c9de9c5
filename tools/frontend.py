"""Front end: turns /repo's current sources into LLVM IR.

Nothing of the library is executed.  The only program of the repository that runs here is its own
source generator python/kernel_gen.py (it prints C++), in a scratch copy.
"""
import os, re, shutil, subprocess, sys, tempfile, atexit, glob

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin/"
CLANG, OPT, LINK, DIS = LLVM + "clang++", LLVM + "opt", LLVM + "llvm-link", LLVM + "llvm-dis"


class Broken(Exception):
    """the analysis itself cannot give an answer (vanished anchor, code that does not compile...)"""


def run(cmd, cwd=None, **kw):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(map(str, cmd)), r.stderr.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="cakeverif.")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


GRID = '#include "common.h"\nstatic bool grid_dims[%d][%d] = {{1}};\n'


def stage(kind="haswell"):
    """Copy of the source tree with the generated kernels, as install.sh makes it."""
    d = os.path.join(scratch(), "st_" + kind)
    if os.path.isdir(d):
        return d
    os.makedirs(d)
    for s in ("src", "include", "python"):
        shutil.copytree(os.path.join(REPO, s), os.path.join(d, s), ignore=shutil.ignore_patterns("__pycache__"))
    inst = open(os.path.join(REPO, "install.sh")).read()
    args = {}
    for m in re.finditer(r"kernel_gen\.py\s+(\w+)\s+(\d+)\s+(\d+)\s+(\w+)", inst):
        args[m.group(1), m.group(4)] = (m.group(2), m.group(3))
    mr, nr = args.get((kind, "dense"), {"haswell": ("8", "32"), "armv8": ("10", "24")}[kind])
    run([sys.executable, "python/kernel_gen.py", kind, mr, nr, "dense"], cwd=d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    shutil.move(os.path.join(d, "dense.cpp"), os.path.join(d, "src/kernels", kind, "dense.cpp"))
    # grid_gen.py prepends the table of processing grids of the build machine; the analysed source
    # must not depend on the machine, so the table is generated for 8 cores with the script's own code
    t = os.path.join(d, "include/tiling.h")
    r = subprocess.run([sys.executable, "-c",
                        "import sys;sys.path.insert(0,'python');import grid_gen;grid_gen.gen_factor_table(8,0.1)"],
                       cwd=d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Broken("grid_gen.py: " + r.stderr.decode()[-1500:])
    return d


def makefile_filter(d):
    """library sources as selected by the Makefile: src/*.cpp minus the filtered ones"""
    mk = open(os.path.join(REPO, "Makefile")).read()
    out = set(re.findall(r"filter-out\s+\$\(CAKE_HOME\)/src/(\w+\.cpp)", mk))
    out -= {"transpose.cpp"}      # filtered on aarch64 only
    return out


def sources(d, kind="haswell"):
    skip = makefile_filter(d)
    s = [f for f in sorted(glob.glob(d + "/src/*.cpp")) if os.path.basename(f) not in skip]
    if kind == "haswell":
        s += [d + "/src/kernels/haswell/dense.cpp", d + "/src/kernels/haswell/transpose_haswell.cpp",
              d + "/src/kernels/haswell/blis_pack_haswell.cpp"]
    return [f for f in s if os.path.exists(f)]


def clients(d):
    t = os.path.join(d, "src/verif_client.cpp")
    shutil.copy(os.path.join(VERIF, "stubs/client.cpp"), t)
    return [t]


def flags(d, kind="haswell"):
    f = ["-I" + VERIF + "/stubs", "-I" + d + "/include", "-w", "-D_POSIX_C_SOURCE=200112L"]
    if kind == "haswell":
        f += ["-mavx", "-mfma", "-DUSE_CAKE_HASWELL", "-DUSE_CAKE_PACK"]
    return f


def strip_sched(text):
    """schedule(...) clauses only choose which thread runs an iteration; drop them"""
    return re.sub(r"(?m)^(\s*#\s*pragma\s+omp\b.*?)\bschedule\s*\([^)]*\)", r"\1", text)


def compile_ll(src, out, d, openmp=True, extra=(), target=()):
    t = open(src, errors="replace").read()
    t2 = strip_sched(t)
    if t2 != t:
        open(src, "w").write(t2)
    cmd = [CLANG, "-S", "-emit-llvm", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions",
           "-ffp-contract=off", "-fno-discard-value-names"]
    if openmp:
        cmd += ["-fopenmp"]
    cmd += list(target) + flags(d) + list(extra) + [src, "-o", out]
    run(cmd)
    return out


def compile_all(kind="haswell", openmp=True):
    """{basename: path of .ll} for every library source, in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    d = stage(kind)
    o = os.path.join(scratch(), "ll_" + kind + ("_omp" if openmp else ""))
    os.makedirs(o, exist_ok=True)
    res = {}
    with ThreadPoolExecutor(8) as ex:
        fs = {}
        for s in sources(d, kind) + (clients(d) if kind == "haswell" else []):
            n = os.path.relpath(s, d).replace("/", "_")[:-4]
            fs[n] = (s, ex.submit(compile_ll, s, o + "/" + n + ".ll", d, openmp))
        for n, (s, f) in fs.items():
            res[os.path.relpath(s, d)] = f.result()
    return res


# ------------------------------------------------------------------ whole-program module
_FORK = re.compile(r"call void \(ptr, i32, ptr, \.\.\.\) @__kmpc_fork_call\(ptr [^,]+, i32 \d+, ptr (@[\w.$\"-]+)((?:, [^)]*)?)\)")
_FORKL = re.compile(r"(?m)^(\s*)(call void \(ptr, i32, ptr, \.\.\.\) @__kmpc_fork_call\(.*\))(, !dbg !\d+)?$")
_INIT = re.compile(r"call void @__kmpc_for_static_init_(\d)(u?)\(ptr [^,]+, i32 [^,]+, i32 \d+, ptr ([^,]+), [^)]*\)")
_FINI = re.compile(r"call void @__kmpc_for_static_fini\([^)]*\)")


def sequentialise(text, base, marks=False):
    """Single-thread form of the OpenMP IR: an outlined region becomes a plain call, a worksharing
    loop runs over its whole iteration space and is bracketed by __verif_par_begin/end markers.
    With marks, the start of every parallel region is marked too."""
    n = [base]
    if marks:
        text = _FORKL.sub(lambda m: "%scall void @__verif_fork()%s\n%s" % (m.group(1), m.group(3) or "", m.group(0)), text)

    def fork(m):
        return "call void %s(ptr @__verif_gtid, ptr @__verif_gtid%s)" % (m.group(1), m.group(2))

    def init(m):
        n[0] += 1
        return "store i32 1, ptr %s, align 4\n  call void @__verif_par_begin(i32 %d)" % (m.group(3), n[0])

    t = _FORK.sub(fork, text)
    t = _INIT.sub(init, t)
    t = _FINI.sub("call void @__verif_par_end(i32 0)", t)
    if t != text:
        t += "\n@__verif_gtid = internal global i32 0\ndeclare void @__verif_par_begin(i32)\ndeclare void @__verif_par_end(i32)\ndeclare void @__verif_fork()\n"
    # everything but the micro-kernels is inlined
    out = []
    for l in t.split("\n"):
        if l.startswith("attributes #"):
            l = re.sub(r"\b(noinline|optnone|alwaysinline)\b", "", l).replace("{", "{ alwaysinline", 1)
        out.append(l)
    return "\n".join(out)


def program(entries, kind="haswell", skip=("kernels",), tag=None, marks=False):
    """One linked, fully inlined module; returns the path of its .ll.  entries: plain C++ names."""
    lls = compile_all(kind)
    o = os.path.join(scratch(), "prog_" + (tag or "drivers"))
    os.makedirs(o, exist_ok=True)
    parts = []
    for k, (src, p) in enumerate(sorted(lls.items())):
        if any(("/" + s) in src or s in src.split("/") for s in skip):
            continue
        q = os.path.join(o, os.path.basename(p))
        open(q, "w").write(sequentialise(open(p).read(), 1000 * (k + 1), marks))
        parts.append(q)
    linked = os.path.join(o, "linked.bc")
    run([LINK] + parts + ["-o", linked])
    out = os.path.join(o, "all.ll")
    # names to keep
    run([DIS, linked, "-o", o + "/linked.ll"])
    names = {}
    for m in re.finditer(r"(?m)^define [^@]*@([\w.$]+)\(", open(o + "/linked.ll").read()):
        d = demangle_name(m.group(1))
        names.setdefault(d, []).append(m.group(1))
    keep = []
    for e in entries:
        c = [x for x in names.get(e, []) if ".omp_outlined" not in x]
        if not c:
            raise Broken("entry point %s not found" % e)
        keep += c
    run([OPT, "-S", linked, "-o", out, "-internalize-public-api-list=" + ",".join(keep),
         "-passes=internalize,always-inline,globaldce,function(sroa,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup>,adce,loop-simplify,lcssa)"])
    return out


def demangle_name(n):
    m = re.match(r"_ZL?(\d+)", n)
    if m:
        k = int(m.group(1))
        return n[m.end():m.end() + k]
    return n
