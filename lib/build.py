"""Builds CLooG from /repo's working tree, with the checks' own build rules.

Every check builds into its own scratch directory, so that nothing depends on
/opt/vp/build.sh having run or on another check."""
import os, re, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ToolError(Exception):
    pass


CORE = ["block", "clast", "matrix", "state", "input", "int", "loop", "names",
        "options", "pprint", "program", "statement", "stride", "union_domain",
        "util"]
ISL = ["domain", "constraints", "backend"]
DEFS = ["-DPACKAGE_NAME=\"cloog\"", "-DISL_USING_GMP_VAL=1", "-DHAVE_STRTOL=1",
        "-DHAVE_GETRUSAGE=1", "-DCLOOG_RUSAGE=/**/",
        "-DHAVE_DECL_MP_GET_MEMORY_FUNCTIONS=1", "-DVERSION=\"0.21.1\""]


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def extra_sources():
    """Sources named by the automake file beyond the ones listed above: a
    change that adds a file must still link here."""
    try:
        am = open(os.path.join(REPO, "Makefile.am")).read()
    except OSError:
        return []
    known = {"source/%s.c" % c for c in CORE} | {"source/isl/%s.c" % c for c in ISL}
    skip = {"source/cloog.c", "source/version.c",
            "source/mp_get_memory_functions.c"}
    out = []
    for m in re.findall(r"source/[\w/]+\.c", am):
        if m in known or m in skip or m.startswith("source/matrix/"):
            continue
        if "polylib" in m or m in out:
            continue
        if os.path.exists(os.path.join(REPO, m)):
            out.append(m)
    return out


def build(outdir, san=False, progs=("gen",), opt="-O1"):
    """Compiles the library and the given harness programs; returns outdir."""
    os.makedirs(outdir, exist_ok=True)
    inc = os.path.join(outdir, "include")
    os.makedirs(os.path.join(inc, "cloog"), exist_ok=True)
    os.makedirs(os.path.join(outdir, "o"), exist_ok=True)
    t = open(os.path.join(REPO, "include/cloog/int.h.in")).read()
    open(os.path.join(inc, "cloog/int.h"), "w").write(
        t.replace("@CLOOG_INT_CONFIGURE@", "CLOOG_INT_GMP"))
    t = open(os.path.join(REPO, "include/cloog/version.h.in")).read()
    ver = ("0", "21", "1")
    for k, v in zip(("MAJOR", "MINOR", "REVISION"), ver):
        t = t.replace("@VERSION_%s@" % k, v)
    open(os.path.join(inc, "cloog/version.h"), "w").write(t)
    open(os.path.join(outdir, "version.h"), "w").write('#define CLOOG_HEAD "verif"\n')
    vc = os.path.join(REPO, "source/version.c.in")
    t = open(vc).read().replace("@BITS@", "gmp")
    open(os.path.join(outdir, "version.c"), "w").write(t)
    flags = ["-g", opt, "-w"] + DEFS + ["-I", inc, "-I", outdir, "-I",
             os.path.join(REPO, "include"), "-I", REPO]
    if san:
        flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                  "-fno-omit-frame-pointer"]
    srcs = [("source/%s.c" % c) for c in CORE] + [("source/isl/%s.c" % c) for c in ISL]
    srcs += extra_sources()
    jobs = [(os.path.join(REPO, s), os.path.join(outdir, "o", s.replace("/", "_")[:-2] + ".o"))
            for s in srcs]
    jobs.append((os.path.join(outdir, "version.c"), os.path.join(outdir, "o", "version.o")))
    libobjs = [o for _, o in jobs]
    pobjs = {}
    for p in progs:
        src = os.path.join(REPO, "source/cloog.c") if p == "cloog" else \
            os.path.join(HERE, "harness", p + ".c")
        o = os.path.join(outdir, "o", "prog_%s.o" % p)
        pobjs[p] = o
        jobs.append((src, o))

    def cc(job):
        return job, _run(["gcc"] + flags + ["-c", job[0], "-o", job[1]])
    with ThreadPoolExecutor(8) as ex:
        for job, r in ex.map(cc, jobs):
            if r.returncode:
                raise ToolError("cannot compile %s:\n%s" % (job[0], r.stdout[-3000:]))
    lib = os.path.join(outdir, "libc.a")
    if os.path.exists(lib):
        os.unlink(lib)
    r = _run(["ar", "rcs", lib] + libobjs)
    if r.returncode:
        raise ToolError("ar: " + r.stdout)
    for p in progs:
        cmd = ["gcc"] + (["-fsanitize=address,undefined"] if san else []) + \
            [pobjs[p], lib, "-lisl", "-lgmp", "-o", os.path.join(outdir, p)]
        r = _run(cmd)
        if r.returncode:
            raise ToolError("cannot link %s:\n%s" % (p, r.stdout[-3000:]))
    return outdir


if __name__ == "__main__":
    import time
    t = time.time()
    build(sys.argv[1], progs=tuple(sys.argv[2:]) or ("gen",))
    print("built in %.1fs" % (time.time() - t))
