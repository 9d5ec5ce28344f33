#!/usr/bin/env python3
"""Builds the simulator and the code under test from /repo's working tree.

Everything goes to a build directory outside /repo (default /verif/.build, which
git ignores).  Objects are keyed by the content of all their inputs."""
import os, sys, subprocess, hashlib, shutil, glob, re, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import stspec
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VP_JOBS", str(min(8, os.cpu_count() or 8))))
SIM = os.path.join(VERIF, "sim")

# variant -> (yc target, element bytes, extra kernel flags)
VARIANTS = {
    "a": ("avx2", 8, ["-mavx2", "-DUSE_INTRIN256", "-DUSE_AVX2", "-DNO_SVML"]),
    "f": ("avx2", 4, ["-mavx2", "-DUSE_INTRIN256", "-DUSE_AVX2", "-DNO_SVML"]),
    "i": ("intel64", 8, ["-DNO_SVML"]),
    "d": ("avx2", 8, ["-mavx2", "-DUSE_INTRIN256", "-DUSE_AVX2", "-DNO_SVML"]),    # with YASK's own program
}
MAXRANKS = 8


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, cwd=None, stdin=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, input=stdin)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout


def tree_hash():
    """Content of all of the code under test that goes into a build."""
    h = hashlib.sha256()
    for base in ("include", "src/common", "src/contrib", "src/kernel/lib", "src/compiler", "utils/bin"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d not in ("swig", "tests", "__pycache__"))
            for f in sorted(files):
                if f.endswith((".cpp", ".hpp", ".h", ".c", ".pl", ".pm")) or base == "utils/bin":
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(read(p))
    for root, dirs, files in sorted(os.walk(SIM)):
        for f in sorted(files):
            h.update(f.encode()); h.update(read(os.path.join(root, f)))
    h.update(read(REPO + "/src/kernel/yask_main.cpp"))
    h.update(read(os.path.abspath(__file__)))
    h.update(read(stspec.__file__))
    return h.hexdigest()[:20]


def files_hash(bases, exts, base_dir=None):
    h = hashlib.sha256()
    for base in bases:
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d not in ("swig", "tests", "__pycache__"))
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode()); h.update(read(p))
    return h.hexdigest()[:20]


def cached(key, out, make):
    """Object files are kept by the content of everything that goes into them."""
    c = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(c):
        os.utime(c)
        shutil.copy(c, out)
        return
    make()
    os.makedirs(os.path.dirname(c), exist_ok=True)
    tmp = "%s.%d.%d" % (c, os.getpid(), threading.get_ident())
    shutil.copy(out, tmp)
    os.rename(tmp, c)


def trim_cache(limit=4 << 30):
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(BUILD + "/obj/*.o")), reverse=True)
    tot = 0
    for _, n, f in fs:
        tot += n
        if tot > limit:
            os.unlink(f)


pool = cf.ThreadPoolExecutor(JOBS)


def comm_sources():
    return sorted(glob.glob(REPO + "/src/common/*.cpp")) + [REPO + "/src/contrib/coefficients/fd_coeff.cpp"]


def inc():
    return ["-I" + REPO + "/include", "-I" + REPO + "/include/aux", "-I" + REPO + "/src/common", "-I" + REPO + "/src/contrib/coefficients"]


def simhost(d):
    out = d + "/simhost"
    if os.path.exists(out):
        return []
    objs, jobs = [], []
    hh = sha(*[read(f) for f in sorted(glob.glob(SIM + "/*.h*") + glob.glob(SIM + "/include/*"))])
    for s in ("core", "omp", "mpisim", "simhost"):
        o = d + "/" + s + ".o"
        objs.append(o)
        cmd = ["g++", "-std=c++17", "-O2", "-g1", "-w", "-I" + SIM + "/include", "-c", SIM + "/" + s + ".cpp", "-o", o]
        jobs.append((cached, sha(hh, s, read(SIM + "/" + s + ".cpp"), " ".join(cmd[:5])), o, lambda cmd=cmd: run(cmd)))
    def link():
        run(["g++", "-rdynamic", "-o", out + ".tmp"] + objs + ["-ldl"])
        os.rename(out + ".tmp", out)
    return [("group", jobs, link)]


YC_FLAGS = ["-std=c++17", "-DFORCE_INLINE_RECURSIVE=", "-DFORCE_INLINE=", "-O0", "-w"]


def yc_jobs(d):
    """The YASK compiler without any stencil: its objects are linked with each set of stencils."""
    out = d + "/libyc.a"
    if os.path.exists(out):
        return []
    fl = YC_FLAGS + inc() + ["-I" + REPO + "/src/compiler/lib"]
    hh = files_hash(["include", "src/common", "src/contrib/coefficients", "src/compiler/lib"], (".hpp", ".h"))
    objs, jobs = [], []
    for s in sorted(glob.glob(REPO + "/src/compiler/lib/*.cpp")) + comm_sources() + [REPO + "/src/compiler/compiler_main.cpp"]:
        o = d + "/yc_" + os.path.basename(s) + ".o"
        objs.append(o)
        jobs.append((cached, sha(hh, os.path.basename(s), read(s), " ".join(YC_FLAGS)), o, lambda s=s, o=o: run(["g++"] + fl + ["-c", s, "-o", o])))
    def link():
        if os.path.exists(out + ".tmp"):
            os.unlink(out + ".tmp")
        run(["ar", "rcs", out + ".tmp"] + objs)
        os.rename(out + ".tmp", out)
    return [("group", jobs, link)]


def yc_exe(d, names):
    """The YASK compiler with the given stencils (as its users build it)."""
    key = sha(*[stspec.text(n) for n in names])
    out = d + "/yc_" + key
    if not os.path.exists(out):
        with open(out + ".cpp", "w") as f:
            f.write(stspec.dsl_file(names))
        run(["g++"] + YC_FLAGS + ["-DUSE_INTERNAL_DSL"] + inc() + ["-I" + REPO + "/src/compiler/lib", out + ".cpp", "-Wl,--whole-archive", d + "/libyc.a", "-Wl,--no-whole-archive", "-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
    return out


LOOPS = [
    ("rank", [], "rank_", None, "nested loop(DOMAIN_LOOP_DIMS) { }"),
    ("mega_block", [], "mega_block_", "omp parallel for schedule(dynamic,1)", " omp loop(DOMAIN_LOOP_DIMS) { }"),
    ("block", [], "block_", None, "nested loop(DOMAIN_LOOP_DIMS) { }"),
    ("micro_block", [], "micro_block_", "omp parallel for schedule(static,1)", " omp loop(DOMAIN_LOOP_DIMS) { }"),
    ("nano_block", ["-no-align"], "nano_block_", None, "serpentine loop(DOMAIN_LOOP_DIMS) { }"),
    ("pico_block", ["-no-align"], "pico_block_", None, "nested loop(PICO_BLOCK_OUTER_LOOP_DIMS) { loop(PICO_BLOCK_INNER_LOOP_DIM) { } }"),
    ("misc", [], "misc_", "omp parallel for", " omp loop(DOMAIN_LOOP_DIMS) { }"),
]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]


def gen_headers(d, so, yc):
    """Runs the YASK compiler and the loop/layout generators."""
    st, var = so.split(".")
    target, eb, _ = VARIANTS[var]
    g = d + "/" + so
    os.makedirs(g, exist_ok=True)
    spec = stspec.Spec(stspec.text(st))
    cmd = [yc, "-stencil", st, "-target", target, "-elem-bytes", str(eb), "-use-ptrs", "-no-use-safe-ptrs", "-no-outer-domain-layout",
           "-inner-misc-layout", "-first-inner", "-no-early-loads", "-min-buffer-len", "1"]
    fv = "a" if var == "d" else var
    if fv in spec.folds:
        cmd += ["-fold", spec.folds[fv]]
    cmd += spec.opts
    run(cmd + ["-p", "yask_stencil_code.hpp"], cwd=g, timeout=60)
    dims = re.findall(r"define DOMAIN_LOOP_DIMS\s+(.*?)\s*$", read(g + "/yask_stencil_code.hpp").decode(), re.M)[0]
    lo, hi = dims.split("..") if ".." in dims else (dims.split(",")[0], dims.split(",")[-1])
    dims = [str(i) for i in range(int(lo), int(hi) + 1)]
    for name, pre, prefix, omp, code in LOOPS:
        # how this solution wants that loop to be generated (see the *_LOOP_MODS and *_LOOP_ORDER build settings)
        mods, order = spec.loops.get(name, (None, None))
        if mods is not None:
            code = re.sub(r"\b(nested|serpentine|square_wave|tiled)\b", "", code)
            code = ("" if mods == "plain" else mods + " ") + code.strip()
        if order:
            code = code.replace("DOMAIN_LOOP_DIMS", ",".join(dims[int(i)] for i in order))
        c = ["perl", REPO + "/utils/bin/gen_loops.pl", "-macro_file", "yask_stencil_code.hpp", "-output", "yask_%s_loops.hpp" % name] + pre + ["-prefix", prefix]
        if omp:
            c += ["-omp", omp]
        run(c + [code], cwd=g)
    code = read(g + "/yask_stencil_code.hpp").decode()
    n = re.findall(r"define.*NUM_STENCIL_AND_VAR_DIMS.*?(\d+)\s*$", code, re.M)[0]
    for fl, f in (("-m", "yask_layout_macros.hpp"), ("-d", "yask_layouts.hpp"), ("-v", "yask_var_code.hpp")):
        o = run(["perl", REPO + "/utils/bin/gen_layouts.pl", fl, n])
        with open(g + "/" + f, "wb") as fo:
            fo.write(o)
    pp = run(["g++", "-E", "-CC"] + kflags(d, so)[1] + ["-DDEFINE_SOLUTION", "yask_stencil_code.hpp"], cwd=g).decode(errors="replace")
    out, on = [], False
    for line in pp.split("\n"):
        if "Automatically-generated" in line:
            on = True
        if on and not re.match(r"#\s[1-9]", line):
            out.append(line)
    with open(g + "/yask_solution_code.hpp", "w") as f:
        f.write("\n".join(out))


def kflags(d, so):
    st, var = so.split(".")
    g = d + "/" + so
    macros = ["-DUSE_MPI", "-DYK_CODE_FILE=%s/yask_stencil_code.hpp" % g, "-DYK_SOLUTION_FILE=%s/yask_solution_code.hpp" % g, "-DUSE_NUMAIF_H", "-DALLOW_NEW_VARS=%d" % stspec.Spec(stspec.text(st)).newvars]
    macros += [f for f in VARIANTS[var][2] if f.startswith("-D")]
    if any(m == "tiled" for m, _ in stspec.Spec(stspec.text(st)).loops.values()):
        macros.append("-DUSE_TILING")
    mach = [f for f in VARIANTS[var][2] if not f.startswith("-D")]
    incs = ["-I" + SIM + "/include", "-I" + REPO + "/include", "-I" + REPO + "/include/aux", "-I" + REPO + "/src/kernel/lib", "-I" + REPO + "/src/common",
            "-I" + REPO + "/src/contrib/coefficients", "-I" + g]
    return ["-std=c++17", os.environ.get("VP_G", "-g0")] + os.environ.get("VP_X", "").split() + ["-w", "-fopenmp", "-fPIC", "-fno-gnu-unique"] + mach, incs + macros


CHUNKS = [["stencil_calc"], ["context", "halo", "factory"], ["setup", "settings", "alloc", "utils"], ["yk_var", "yk_var_apis"], ["generic_var", "new_var", "auto_tuner", "soln_apis"]]


def so_jobs(d, so):
    """Compile jobs of one shared object (after the headers exist)."""
    g = d + "/" + so
    if os.path.exists(g + ".r%d.so" % (MAXRANKS - 1)):
        return []
    st, var = so.split(".")
    opt, im = kflags(d, so)
    base = ["g++"] + opt + ["-Og"] + TSAN + ["-include", "simshim.h"] + im
    lib = REPO + "/src/kernel/lib"
    have = {os.path.splitext(os.path.basename(f))[0] for f in glob.glob(lib + "/*.cpp")}
    chunks = [[n for n in c if n in have] for c in CHUNKS]
    rest = sorted(have - {n for c in CHUNKS for n in c})
    chunks += [[n] for n in rest]
    objs, jobs = [], []
    hh = sha(files_hash(["include", "src/common", "src/contrib/coefficients", "src/kernel/lib"], (".hpp", ".h")),
             *([read(f) for f in sorted(glob.glob(g + "/yask_*.hpp") + glob.glob(SIM + "/*.h") + glob.glob(SIM + "/include/*"))] + [" ".join(base[:1] + opt + TSAN) + " ".join(x for x in im if "/" not in x)]))

    def compile_chunk(names, idx):
        return [compile_cached(names, idx)]

    def compile_cached(names, idx):
        o = "%s/k%d.o" % (g, idx)
        def make():
            os_ = compile_chunk0(names, idx)
            if len(os_) == 1:
                os.rename(os_[0], o)
            else:
                run(["ld", "-r", "-o", o] + os_)
        cached(sha(hh, *[n + "\n" + read("%s/%s.cpp" % (lib, n)).decode(errors="replace") for n in names]), o, make)
        return o

    def compile_chunk0(names, idx):
        u = "%s/u%d.cpp" % (g, idx)
        with open(u, "w") as f:
            for n in names:
                f.write('#include "%s/%s.cpp"\n' % (lib, n))
        try:
            run(base + ["-c", u, "-o", "%s/u%d.o" % (g, idx)])
            return ["%s/u%d.o" % (g, idx)]
        except BuildError:
            if len(names) == 1:
                raise
        os_ = []
        for n in names:   # the files do not fit in one unit: compile them apart
            o = "%s/%s.o" % (g, n)
            run(base + ["-c", "%s/%s.cpp" % (lib, n), "-o", o])
            os_.append(o)
        return os_

    results = {}
    for i, c in enumerate(chunks):
        if c:
            def job(c=c, i=i):
                results[i] = compile_chunk(c, i)
            jobs.append((job,))
    for s in comm_sources():
        o = g + "/c_" + os.path.basename(s) + ".o"
        objs.append(o)
        jobs.append((cached, sha(hh, os.path.basename(s), read(s)), o, lambda s=s, o=o: run(["g++"] + opt + ["-Og"] + TSAN + ["-include", "simshim.h"] + im + ["-c", s, "-o", o])))
    ao = g + "/agent.o"
    objs.append(ao)
    drv = ["-DVP_DRIVER", '-DVP_YASK_MAIN="%s/src/kernel/yask_main.cpp"' % REPO] if var == "d" else []
    jobs.append((cached, sha(hh, "agent", read(SIM + "/agent.cpp"), " ".join(drv[:1])), ao, lambda: run(["g++"] + opt + ["-O1", "-I" + SIM] + drv + im + ["-c", SIM + "/agent.cpp", "-o", ao])))
    if drv:
        do = g + "/driver.o"
        objs.append(do)
        jobs.append((cached, sha(hh, "driver", read(SIM + "/driver.cpp"), read(REPO + "/src/kernel/yask_main.cpp")), do, lambda: run(base + drv + ["-I" + SIM, "-c", SIM + "/driver.cpp", "-o", do])))

    def link():
        kobjs = [o for i in sorted(results) for o in results[i]]
        run(["g++", "-shared", "-o", g + ".tmp.so"] + kobjs + objs + ["-Wl,-Bsymbolic", "-nodefaultlibs", "-lstdc++", "-lm", "-lgcc_s", "-lc"])
        data = read(g + ".tmp.so")
        for r in range(MAXRANKS):
            with open(g + ".r%d.tmp" % r, "wb") as f:
                f.write(data)
            os.rename(g + ".r%d.tmp" % r, g + ".r%d.so" % r)
        for f in glob.glob(g + "/*.o"):
            os.unlink(f)
        os.unlink(g + ".tmp.so")
    return [("group", jobs, link)]


def run_groups(groups):
    futs = []
    for _, jobs, link in groups:
        futs.append(([pool.submit(j[0], *j[1:]) for j in jobs], link))
    for fs, link in futs:
        for f in fs:
            f.result()
        link()


REJECTED = {}    # programs left out of the last build(): name -> message


def build(sos, tolerate=False):
    """Returns the directory with simhost and <so>.r<k>.so.  A random program that the
    YASK compiler rejects is left out (see REJECTED); with 'tolerate', so is any program
    for which the YASK compiler fails or generates code that cannot be compiled."""
    th = tree_hash()
    d = os.path.join(BUILD, th)
    os.makedirs(d, exist_ok=True)
    # keep only a few old builds
    old = sorted((x for x in glob.glob(BUILD + "/*") if os.path.isdir(x) and x != d and re.match(r"[0-9a-f]{20}$", os.path.basename(x))), key=os.path.getmtime)
    for x in old[:-2]:
        subprocess.run(["rm", "-rf", x])
    run_groups(yc_jobs(d))
    host = simhost(d)
    hf = [(jobs, link) for _, jobs, link in host]
    hfut = [([pool.submit(j[0], *j[1:]) for j in jobs], link) for jobs, link in hf]
    need = [s for s in sos if not os.path.exists("%s/%s.r%d.so" % (d, s, MAXRANKS - 1))]
    for st in {s.split(".")[0] for s in sos}:
        with open("%s/%s.st" % (d, st), "w") as f:
            f.write(stspec.text(st))
    fixed = stspec.fixed()
    ycs = {}
    for s in need:
        st = s.split(".")[0]
        key = tuple(fixed) if st in fixed else "random"
        ycs.setdefault(key, []).append(s)
    if "random" in ycs:
        ss = ycs.pop("random")
        names = sorted({s.split(".")[0] for s in ss})
        for k in range(0, len(names), 8):
            ycs[tuple(names[k:k + 8])] = [s for s in ss if s.split(".")[0] in names[k:k + 8]]
    for key, f in [(k, pool.submit(yc_exe, d, list(k))) for k in ycs]:
        ycs[key] = (f.result(), ycs[key])
    REJECTED.clear()
    for s, f in [(s, pool.submit(gen_headers, d, s, yc)) for yc, ss in ycs.values() for s in ss]:
        try:
            f.result()
        except (BuildError, subprocess.TimeoutExpired) as e:
            if not tolerate and (not s.startswith("vr_") or "YASK error" not in str(e)):
                raise
            REJECTED[s] = str(e)
    groups = [(s, [(pool.submit(j[0], *j[1:])) for j in jobs], link) for s in need if s not in REJECTED for _, jobs, link in so_jobs(d, s)]
    for s, fs, link in groups:
        try:
            for f in fs:
                f.result()
            link()
        except BuildError as e:
            for f in fs:
                f.exception()
            if not tolerate:
                raise
            REJECTED[s] = "generated code: " + str(e)
    for fs, link in hfut:
        for f in fs:
            f.result()
        link()
    for f in glob.glob(d + "/*.o"):
        os.unlink(f)
    trim_cache()
    return d


if __name__ == "__main__":
    import time
    t = time.time()
    d = build(sys.argv[1:])
    print(d, "%.1fs" % (time.time() - t))
