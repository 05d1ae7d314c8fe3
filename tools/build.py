"""Builds the engine, the bitcode of the repository's current sources and the native replayers."""
import hashlib, os, subprocess, sys, glob, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
APP = os.path.join(REPO, "src", "app")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
NM = "llvm-nm-18" if shutil.which("llvm-nm-18") else "llvm-nm"
OPT = "opt-18" if shutil.which("opt-18") else "opt"
CFG = "llvm-config-18" if shutil.which("llvm-config-18") else "llvm-config"
JOBS = os.cpu_count() or 4

BCFLAGS = ["-std=c++20", "-O1", "-emit-llvm", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-unroll-loops", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-delete-null-pointer-checks", "-fno-pic", "-w"]
NATFLAGS = ["-std=c++20", "-O0", "-gline-tables-only", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern",
            "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment", "-fno-sanitize-recover=undefined", "-w", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:600], r.stdout[-6000:]))
    return r.stdout


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p.encode() if isinstance(p, str) else p)
        m.update(b"\0")
    return m.hexdigest()[:20]


def fread(p):
    with open(p, "rb") as f:
        return f.read()


def engine():
    src = sorted(glob.glob(VERIF + "/engine/*.[ch]pp"))
    key = h(*[fread(s) for s in src])
    d = os.path.join(BUILD, "engine-" + key)
    exe = os.path.join(d, "symx")
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix="eng", dir=mkbuild())
    cxx = [f for f in run([CFG, "--cxxflags"]).split() if not f.startswith("-std=")]
    jobs = [["g++", "-std=c++17", "-O1", "-w"] + cxx + ["-fexceptions", "-c", VERIF + "/engine/interp.cpp", "-o", tmp + "/interp.o"],
            ["g++", "-std=c++17", "-O2", "-w", "-c", VERIF + "/engine/expr.cpp", "-o", tmp + "/expr.o"],
            ["g++", "-std=c++17", "-O2", "-w", "-c", VERIF + "/engine/solver.cpp", "-o", tmp + "/solver.o"]]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(run, jobs))
    run(["g++", tmp + "/interp.o", tmp + "/expr.o", tmp + "/solver.o"] + run([CFG, "--ldflags"]).split() + ["-lLLVM-18", "-lz3", "-o", tmp + "/symx"])
    place(tmp, d)
    return exe


def mkbuild():
    os.makedirs(BUILD, exist_ok=True)
    return BUILD


def place(tmp, d):
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


_src = None


def sources():
    """every translation unit of the application, except its main() and its tests"""
    global _src
    if _src is None:
        _src = []
        for root, dirs, files in os.walk(APP):
            dirs.sort()
            if os.path.basename(root) in ("ut", "mock"):
                dirs[:] = []
                continue
            for f in sorted(files):
                if f.endswith(".cpp") and f != "main.cpp":
                    _src.append(os.path.join(root, f))
    return _src


def includes():
    dirs = set()
    for root, ds, files in os.walk(APP):
        if os.path.basename(root) in ("ut", "mock"):
            ds[:] = []
            continue
        if any(f.endswith((".hpp", ".h")) for f in files):
            dirs.add(root)
    return ["-I" + d for d in sorted(dirs)] + ["-I" + HARN]


_tree = None


def treehash():
    global _tree
    if _tree is None:
        m = hashlib.sha256()
        for root, dirs, files in os.walk(APP):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".hpp", ".h", ".inl", ".ipp")):
                    p = os.path.join(root, f)
                    m.update(os.path.relpath(p, APP).encode() + b"\0" + fread(p) + b"\0")
        _tree = m.hexdigest()[:20]
    return _tree


def select(dirs):
    if dirs is None:
        return list(sources())
    out = []
    for s in sources():
        rel = os.path.relpath(s, APP)
        if any(rel == d or rel.startswith(d + "/") or (d == "." and "/" not in rel) for d in dirs):
            out.append(s)
    return out


def harness_hash():
    return h(*[fread(f) for f in sorted(glob.glob(HARN + "/*"))])


def compile_many(items, flags, outdir, ext):
    """items: (path, extra flags); returns objects"""
    inc = includes()

    def one(it):
        src, extra = it
        o = os.path.join(outdir, re.sub(r"[^A-Za-z0-9_]", "_", os.path.relpath(src, "/")) + ext)
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            run([CLANG] + flags + extra + inc + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        return o
    # big files first
    order = sorted(range(len(items)), key=lambda i: -os.path.getsize(items[i][0]))
    res = [None] * len(items)
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {i: ex.submit(one, items[i]) for i in order}
        for i, f in futs.items():
            res[i] = f.result()
    return res


def undefined_app(bc):
    """undefined symbols of the repository's namespaces"""
    out = run([NM, "-u", bc])
    bad = []
    for l in out.splitlines():
        s = l.split()[-1]
        if re.match(r"_Z[A-Za-z]*N?K?[A-Z]*(3app|2ua|6modbus|7reactor|10controller)", s) or "3app" in s:
            bad.append(s)
    return bad


def srcdir(kind, flags):
    d = os.path.join(mkbuild(), "%s-%s" % (kind, h(treehash(), " ".join(flags))))
    os.makedirs(d, exist_ok=True)
    return d


def bitcode(harness, dirs, defs=(), srcflags=(), allsrc=False, norts=False):
    """links the harness with the bitcode of the selected sources (all of them when something is missing)"""
    defs = list(defs)
    key = h(treehash(), harness_hash(), harness, str(dirs), " ".join(defs), " ".join(srcflags), " ".join(BCFLAGS), str(allsrc), str(norts))
    out = os.path.join(mkbuild(), "bc-%s-%s.bc" % (os.path.basename(harness).split(".")[0], key))
    if os.path.exists(out):
        return out
    sd = srcdir("bcsrc", BCFLAGS + list(srcflags) + defs)
    hd = os.path.join(BUILD, "bch-" + h(treehash(), harness_hash(), " ".join(defs)))
    os.makedirs(hd, exist_ok=True)
    srcs = select(None if allsrc else dirs)
    # one pool for everything
    inc = includes()
    jobs = [(s, BCFLAGS + list(srcflags) + defs, sd) for s in srcs] + [(os.path.join(HARN, harness), BCFLAGS + defs, hd), (os.path.join(HARN, "rt_sym.cpp"), BCFLAGS + defs, hd)]
    if norts:
        jobs.pop()

    def one(j):
        s, fl, d = j
        o = os.path.join(d, re.sub(r"[^A-Za-z0-9_]", "_", os.path.relpath(s, "/")) + ".bc")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            run([CLANG] + fl + inc + ["-c", s, "-o", tmp])
            os.rename(tmp, o)
        return o
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, jobs))
    tmp = out + ".%d.tmp" % os.getpid()
    run([LINK] + objs + ["-o", tmp])
    if not allsrc and dirs is not None and undefined_app(tmp):
        os.unlink(tmp)
        return bitcode(harness, dirs, defs, srcflags, True, norts)
    os.rename(tmp, out)
    return out


def native_from_bitcode(harness, dirs, defs=(), srcflags=()):
    """machine code of exactly the bitcode the engine executes (needed when yield points are instrumented)"""
    bc = bitcode(harness, dirs, defs, srcflags, norts=True)
    out = bc[:-3] + ".nat"
    if os.path.exists(out):
        return out
    hd = os.path.join(BUILD, "nath-" + h(treehash(), harness_hash(), " ".join(defs), "bc"))
    os.makedirs(hd, exist_ok=True)
    rt = os.path.join(hd, "rt_native.o")
    run([CLANG, "-std=c++20", "-O1", "-w", "-fno-pic", "-I" + HARN, "-c", os.path.join(HARN, "rt_native.cpp"), "-o", rt])
    obj = out + ".o"
    run([CLANG, "-O0", "-w", "-fno-pic", "-c", bc, "-o", obj])
    wraps = {l.split()[-1][7:] for l in run([NM, "--defined-only", bc]).splitlines() if l.split()[-1].startswith("__wrap_")}
    # wrapping works on undefined symbols, so the linked bitcode must not define what it wraps (it never does: libc calls)
    tmp = out + ".%d.tmp" % os.getpid()
    run([CLANG, "-rdynamic", "-no-pie", obj, rt] + ["-Wl,--wrap=" + w for w in sorted(wraps)] + ["-ldl", "-lpthread", "-o", tmp])
    os.rename(tmp, out)
    return out


def native(harness, dirs, defs=(), srcflags=()):
    if any("sanitize-coverage" in f for f in srcflags):
        return native_from_bitcode(harness, dirs, defs, srcflags)
    defs = list(defs)
    key = h(treehash(), harness_hash(), harness, str(dirs), " ".join(defs), " ".join(srcflags), " ".join(NATFLAGS))
    out = os.path.join(mkbuild(), "nat-%s-%s" % (os.path.basename(harness).split(".")[0], key))
    if os.path.exists(out):
        return out
    err = None
    for d in ([dirs, None] if dirs is not None else [None]):
        sd = srcdir("natsrc", NATFLAGS + list(srcflags) + defs)
        hd = os.path.join(BUILD, "nath-" + h(treehash(), harness_hash(), " ".join(defs)))
        os.makedirs(hd, exist_ok=True)
        inc = includes()
        jobs = [(s, NATFLAGS + list(srcflags) + defs, sd) for s in select(d)] + [(os.path.join(HARN, harness), NATFLAGS + defs, hd), (os.path.join(HARN, "rt_native.cpp"), NATFLAGS + defs, hd)]

        def one(j):
            s, fl, dd = j
            o = os.path.join(dd, re.sub(r"[^A-Za-z0-9_]", "_", os.path.relpath(s, "/")) + ".o")
            if not os.path.exists(o):
                tmp = o + ".%d.tmp" % os.getpid()
                run([CLANG] + fl + inc + ["-c", s, "-o", tmp])
                os.rename(tmp, o)
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))))
        hobj = [o for o in objs if os.path.dirname(o) == hd]
        wraps = set()
        for o in hobj:
            for l in run([NM, "--defined-only", o]).splitlines():
                s = l.split()[-1]
                if s.startswith("__wrap_"):
                    wraps.add(s[7:])
        tmp = out + ".%d.tmp" % os.getpid()
        try:
            run([CLANG, "-fsanitize=address,undefined", "-rdynamic"] + objs + ["-Wl,--wrap=" + w for w in sorted(wraps)] + ["-ldl", "-lpthread", "-o", tmp])
            os.rename(tmp, out)
            return out
        except BuildError as e:
            err = e
    raise err
