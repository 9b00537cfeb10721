"""Runs of the printed code: the real cloog program prints C or Fortran, the
compiler compiles it, the runs record the statement instances they execute;
TraceScan judges the traces."""
import os, random, re, shutil, subprocess, tempfile
from core import *

CPRE = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
static int *buf; static int nb, cap, lim = 400000;
void hash(int v) {
  if (nb == cap) { cap = cap ? 2 * cap : 4096; buf = realloc(buf, cap * sizeof(int)); }
  buf[nb++] = v;
  if (nb > lim) { printf("RUNAWAY\n"); fflush(stdout); _exit(0); }
}
void rec_(int *v) { hash(*v); }
static void flush_(void) { int i; printf("T"); for (i = 0; i < nb; i++) printf(" %d", buf[i]); printf("\n"); nb = 0; }
"""


def c_main(progs, runs):
    """progs: ids; runs: {id: [params...]}"""
    o = [CPRE]
    for k in progs:
        n = len(runs[k][0]) if runs[k] else 0
        o.append("void t_%d(%s);" % (k, ",".join(["int"] * n) or "void"))
    o.append("static void one(int k) { switch (k) {")
    for k in progs:
        o.append("case %d:" % k)
        for p in runs[k]:
            o.append(" t_%d(%s); flush_();" % (k, ",".join(map(str, p))))
        o.append(" break;")
    o.append("} }")
    o.append("int ids[] = {%s};" % ",".join(map(str, progs)))
    o.append(r"""int main(void) { int i, st; struct rlimit rl;
 for (i = 0; i < (int)(sizeof(ids)/sizeof(int)); i++) {
  printf("P %d\n", ids[i]); fflush(stdout);
  if (fork() == 0) { rl.rlim_cur = rl.rlim_max = 10; setrlimit(RLIMIT_CPU, &rl);
    one(ids[i]); fflush(stdout); _exit(0); }
  wait(&st); if (st) { printf("DIED %d\n", st); fflush(stdout); } }
 return 0; }""")
    return "\n".join(o) + "\n"


MACROS = """#define floord(n,d) (((n)<0) ? -((-(n)+(d)-1)/(d)) : (n)/(d))
#define ceild(n,d)  (((n)<0) ? -((-(n))/(d)) : ((n)+(d)-1)/(d))
#define max(x,y)    ((x) > (y) ? (x) : (y))
#define min(x,y)    ((x) < (y) ? (x) : (y))
extern void hash(int);
"""


FUNCTIONS = """static int floord(int n, int d) { return n < 0 ? -((-n+d-1)/d) : n/d; }
static int ceild(int n, int d) { return n < 0 ? -((-n)/d) : (n+d-1)/d; }
static int max(int x, int y) { return x > y ? x : y; }
static int min(int x, int y) { return x < y ? x : y; }
extern void hash(int);
"""
# (expanded macros in deep nests of minima and maxima can use up all memory)
LIMIT = ["bash", "-c", 'ulimit -v 6000000; exec "$@"', "-"]
NOMEM = re.compile(r"out of memory|memory exhausted|Killed|Cannot allocate")


# what the annotated programs expect from their surroundings; one process
PARPRE = """#define IF_TIME(x) x
static double t0, t1, t2, t0_start, t1_start, t2_start;
static int red_, nprocs = 1, my_rank = 0, lbp, ubp, started;
static double cloog_util_rtclock(void) { return started++; }
static void polyrt_loop_dist(int l, int u, int n, int r, int *lb, int *ub)
{ if (n != 1 || r != 0) hash(-7); *lb = l; *ub = u; }
"""


def cloog_out(cloog, text, opts, d, timeout=20):
    fn = os.path.join(d, "in.cloog")
    with open(fn, "w") as f:
        f.write(text)
    try:
        r = subprocess.run(["timeout", "-s", "KILL", str(timeout), cloog] + opts + [fn], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", cwd=d)
    except OSError as e:
        raise ToolError(str(e))
    return r.returncode, r.stdout, r.stderr


def decode(prog, ints, scale=1):
    """flat list of ints -> list of (s, it), or None"""
    out, i = [], 0
    while i < len(ints):
        s = ints[i]
        if s == 0:                      # S0: the empty program
            i += 1
            continue
        if not 1 <= s <= len(prog.stmts):
            return None
        d = prog.stmts[s - 1].d
        if i + 1 + d > len(ints):
            return None
        it = ints[i + 1:i + 1 + d]
        if any(x % scale for x in it):
            return None
        out.append((s, tuple(x // scale for x in it)))
        i += 1 + d
    return out


def wrap_c(mode, k, prog, txt):
    """the translation unit of program k"""
    if mode == "callable":
        return "#define test t_%d\n" % k + txt, 1
    # the plain output, with statement macros of our own: the arguments have to
    # survive the use in a larger expression
    o = [FUNCTIONS, PARPRE] if mode == "given" else [MACROS]
    ps = prog.pnames or DEFPAR[:prog.np]
    for s, st in enumerate(prog.stmts):
        a = ["a%d" % i for i in range(st.d)]
        o.append("#define S%d(%s) { hash(%d); %s }" % (s + 1, ",".join(a), s + 1,
                 " ".join("hash(3*%s);" % x for x in a)))
    o.append("void t_%d(%s) {" % (k, ",".join("int " + p for p in ps) or "void"))
    names = sorted(set(re.findall(r"\b([A-Za-z_]\w*)\s*(?:=(?!=))", txt)) -
                   (set("t0 t1 t2 t0_start t1_start t2_start red_".split()) if mode == "given" else set()))
    if mode == "given" and "lbv,ubv" in txt:
        names = sorted(set(names) | {"lbv", "ubv"})
    if names:
        o.append(" int %s;" % ",".join(names))
    o += [txt, "}"]
    return "\n".join(o) + "\n", 3


DEFPAR = ["M", "N", "O", "P", "Q"]


def wrap_f(mode, k, prog, txt):
    ps = prog.pnames or DEFPAR[:prog.np]
    o = []
    for s, st in enumerate(prog.stmts):
        a = ["a%d" % i for i in range(st.d)]
        o.append("#define S%d(%s) CALL rec%d(%s)" % (s + 1, ",".join(a), st.d,
                                                    ",".join([str(s + 1)] + ["(3*%s)" % x for x in a])))
    low = {p.lower() for p in ps}
    o.append("SUBROUTINE t_%d(%s) BIND(C, name='t_%d')" % (k, ",".join(ps), k))
    o.append("IMPLICIT NONE")
    if ps:
        o.append("INTEGER, VALUE :: " + ", ".join(ps))
    names = sorted({n for n in re.findall(r"(?:^|\bDO )\s*([A-Za-z_]\w*)\s*=(?!=)", txt, re.M)
                    if n.lower() not in low})
    if names:
        o.append("INTEGER :: " + ", ".join(names))
    o += ["".join(l + "\n" for l in txt.splitlines() if not l.startswith("!")),
          "END SUBROUTINE"]
    return "\n".join(o) + "\n", 3


FREC = "".join("""SUBROUTINE rec%d(s%s)
INTEGER :: s%s
CALL rec_c(s)
%sEND SUBROUTINE
""" % (d, "".join(",a%d" % i for i in range(d)), "".join(",a%d" % i for i in range(d)),
       "".join("CALL rec_c(a%d)\n" % i for i in range(d))) for d in range(6)).replace(
    "CALL rec_c", "CALL rec")


def _pchunk(a):
    """worker: print, compile, run, screen"""
    cloog, tmp, cases, mode, tlc_share, seed = a
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=tmp)
    out, progs, runs, files = [], [], {}, []
    scale = {}
    fort = mode in ("fortran", "given_f")
    ext = ".F90" if fort else ".c"
    for i, c in enumerate(cases):
        opts = c.opts + (["-callable", "1"] if mode == "callable" else [])
        if mode.startswith("given"):    # the text is there already
            rc, txt, err = 0, c.printed, ""
        else:
            rc, txt, err = cloog_out(cloog, c.text, opts, d, 60)
        if rc != 0:
            out.append((i, "timeout" if rc in (137, 124, -9) else "crash", None, None, "exit %d %s" % (rc, err[-200:])))
            continue
        wrap = wrap_f if mode in ("fortran", "given_f") else wrap_c
        src, scale[i] = wrap(mode, i, c.prog, txt)
        ps = params_for(c, random.Random(c.key))[:8]
        keep = []
        for p in ps:
            try:
                for s in range(len(c.prog.stmts)):
                    c.prog.points(s, p)
                keep.append(p)
            except OverflowError:
                pass
        if not keep:
            out.append((i, "skip", None, None, ""))
            continue
        fn = os.path.join(d, "p%d%s" % (i, ext))
        with open(fn, "w") as f:
            f.write(src)
        progs.append(i)
        runs[i] = keep
        files.append((i, fn, txt))
    cmd = ["gfortran", "-O0", "-cpp", "-ffree-form", "-ffree-line-length-none", "-w"] \
        if fort else ["gcc", "-O0", "-w", "-std=gnu11"] + (["-fopenmp"] if mode == "given" else [])
    good = []
    r = subprocess.run(LIMIT + cmd + ["-c"] + [f for _, f, _ in files], cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace") if files else None
    for i, fn, txt in files:
        o = os.path.join(d, "p%d.o" % i)
        if not os.path.exists(o):
            r1 = subprocess.run(LIMIT + cmd + ["-c", fn, "-o", o], cwd=d, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True, errors="replace")
            if r1.returncode and NOMEM.search(r1.stdout):
                out.append((i, "skip", None, None, ""))
                continue
            if r1.returncode:
                out.append((i, "uncompilable", txt, None, r1.stdout[-400:]))
                continue
        good.append(i)
    traces = {}
    if good:
        main = os.path.join(d, "main.c")
        with open(main, "w") as f:
            f.write(c_main(good, runs))
        objs = [os.path.join(d, "p%d.o" % i) for i in good]
        if fort:
            fr = os.path.join(d, "frec.F90")
            with open(fr, "w") as f:
                f.write(FREC)
            r = subprocess.run(["gcc", "-O0", "-w", "-c", main, "-o", main + ".o"], cwd=d)
            r = subprocess.run(cmd + ["-o", "x", main + ".o", fr] + objs, cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        else:
            r = subprocess.run(["gcc", "-O0", "-w", "-o", "x", main] + (["-fopenmp"] if mode == "given" else []) + objs, cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            # something in a program's own text does not link
            for i in good:
                out.append((i, "uncompilable", None, None, r.stdout[-300:]))
            good = []
        else:
            r = subprocess.run(["./x"], cwd=d, env=dict(os.environ, OMP_NUM_THREADS="1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, errors="replace")
            cur = None
            for l in r.stdout.splitlines():
                w = l.split()
                if not w:
                    continue
                if w[0] == "P":
                    cur = int(w[1])
                    traces[cur] = []
                else:
                    traces[cur].append(l)
    for i, fn, txt in files:
        if i not in good:
            continue
        c = cases[i]
        ls = traces.get(i, [])
        if any(l.startswith("RUNAWAY") for l in ls):
            out.append((i, "diverges", txt, None, ""))
            continue
        if len(ls) != len(runs[i]) or any(not l.startswith("T") for l in ls):
            out.append((i, "dies", txt, None, " ".join(ls)[-100:]))
            continue
        trs = [decode(c.prog, [int(x) for x in l.split()[1:]], scale[i]) for l in ls]
        if any(t is None for t in trs):
            out.append((i, "malformed", txt, None, "undecodable trace"))
            continue
        bad = None
        for p, t in zip(runs[i], trs):
            b = astrun.check_trace(c.prog, t, p)
            if b:
                bad = (b, p, t)
                break
        if bad:
            out.append((i, bad[0], txt, [(bad[1], bad[2])], ""))
        else:
            sel = []
            if rng.random() < tlc_share:
                vol = 0
                for p, t in zip(runs[i], trs):
                    v = small_enough(c.prog, [p])
                    if v <= 4000 and vol + v <= 12000 and len(sel) < 4:
                        sel.append((p, t))
                        vol += v
            out.append((i, "ok", txt, sel, len(runs[i])))
    shutil.rmtree(d, ignore_errors=True)
    return out


def run_printed(chk, cloog, cases, mode, tlc_share=.5, size=25):
    cases = [c for c in cases if c.key not in chk.slow]
    seen, uniq = set(), []
    for c in cases:
        if c.key not in seen:
            seen.add(c.key)
            uniq.append(c)
    cases = uniq
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    res = pmap(_pchunk, [(cloog, chk.tmp, ch, mode, tlc_share, "%d/%s/%s/%d" % (
        chk.seed, chk.pid, mode, k)) for k, ch in enumerate(chunks)])
    tl, who = [], {}
    for k, rr in enumerate(res):
        for i, verdict, txt, trs, note in rr:
            c = chunks[k][i]
            if verdict == "skip":
                continue
            chk.add("programs")
            rep = {"input": c.text, "options": " ".join(c.opts), "mode": mode, "printed": txt,
                   "note": str(note), "tag": c.tag, "prog": prog_json(c.prog)}
            if verdict in ("crash", "uncompilable", "diverges", "dies", "malformed") or \
                    (verdict == "timeout" and chk.curated):
                chk.violation(c.key, verdict, rep)
                continue
            if verdict == "timeout":
                chk.add("out_of_time")
                continue
            if verdict == "ok":
                chk.add("runs_screened", note)
            if trs:
                cid = k * 1000 + i
                who[cid] = (c, rep)
                ps = [p for p, _ in trs]
                tl.append({"id": cid, "stmts": tlc_stmts(c.prog, ps),
                           "ctx": [{"rows": q.rows, "ex": []} for q in c.prog.ctx],
                           "ps": [list(p) for p in ps],
                           "traces": [[[s] + list(it) for s, it in t] for _, t in trs]})
    if not cases:
        raise ToolError("empty corpus")
    verd, st = tlc_batch(chk, "TraceScan", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for cid, vs in verd.items():
        c, rep = who[cid]
        chk.add("traces_validated_against_impl", len(vs))
        for p, v, inst in vs:
            if v != "ok":
                r = dict(rep)
                r["note"] = "parameters %s: %s %s" % (p, v, inst)
                chk.violation(c.key, v, r)
    for c in cases[:2]:
        chk.sample({"input": c.text, "options": " ".join(c.opts), "mode": mode})


def _kchunk(a):
    """worker of run_compilable"""
    cloog, tmp, cases, vals = a
    d = tempfile.mkdtemp(dir=tmp)
    out = []
    for i, (c, n) in enumerate(zip(cases, vals)):
        rc, txt, err = cloog_out(cloog, c.text, c.opts + ["-compilable", str(n)], d, 60)
        if rc != 0:
            out.append((i, "timeout" if rc in (137, 124, -9) else "crash", None, None, "exit %d %s" % (rc, err[-200:])))
            continue
        fn = os.path.join(d, "k%d.c" % i)
        with open(fn, "w") as f:
            f.write(txt)
        r = subprocess.run(["gcc", "-O0", "-w", "-std=gnu11", "-o", fn + ".x", fn, "-lm"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            out.append((i, "uncompilable", txt, None, r.stdout[-400:]))
            continue
        r = subprocess.run("ulimit -t 10; %s.x | head -c 4000000" % fn, shell=True, cwd=d, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, errors="replace")
        tr, total, bad = [], None, False
        for l in r.stdout.splitlines():
            m = re.match(r"Number of integral points: (\d+)\.$", l)
            if m:
                total = int(m.group(1))
                continue
            w = l.split()
            try:
                tr.append((int(w[0][1:]), tuple(int(x) for x in w[1:])))
                if w[0][0] != "S" or len(w) != 1 + c.prog.stmts[tr[-1][0] - 1].d:
                    bad = True
            except (ValueError, IndexError):
                bad = True
        if bad or total is None:
            out.append((i, "malformed", txt, None, r.stdout[-200:]))
            continue
        out.append((i, "ran", txt, (tr, total), ""))
    shutil.rmtree(d, ignore_errors=True)
    return out


def run_compilable(chk, cloog, cases, size=12):
    """-compilable: a complete program, every parameter has the given value; it
    prints the instances of the statements that have iterators and counts all"""
    sel, vals = [], []
    for c in cases:
        if c.key in chk.slow:
            continue
        rng = random.Random(c.key)
        ok = [n for n in range(1, 8) if c.prog.in_ctx((n,) * c.prog.np)]
        if not ok:
            continue
        n = rng.choice(ok)
        try:
            for s in range(len(c.prog.stmts)):
                c.prog.points(s, (n,) * c.prog.np)
        except OverflowError:
            continue
        sel.append(c)
        vals.append(n)
    chunks = [(sel[i:i + size], vals[i:i + size]) for i in range(0, len(sel), size)]
    res = pmap(_kchunk, [(cloog, chk.tmp, a, b) for a, b in chunks])
    tl, who = [], {}
    for k, rr in enumerate(res):
        for i, verdict, txt, tr, note in rr:
            c, n = chunks[k][0][i], chunks[k][1][i]
            key = key_of(c.text, c.opts + ["-compilable", str(n)])
            chk.add("programs")
            rep = {"input": c.text, "options": " ".join(c.opts + ["-compilable", str(n)]),
                   "printed": txt, "note": str(note), "tag": c.tag, "prog": prog_json(c.prog)}
            if verdict == "timeout" and not chk.curated:
                chk.add("out_of_time")
                continue
            if verdict != "ran":
                chk.violation(key, verdict, rep)
                continue
            p = (n,) * c.prog.np
            silent = sum(1 for s, x in enumerate(c.prog.stmts) if x.d == 0 and c.prog.points(s, p))
            if tr[1] != len(tr[0]) + silent:
                rep["note"] = "counted %d, printed %d, %d without iterators" % (tr[1], len(tr[0]), silent)
                chk.violation(key, "count", rep)
                continue
            # the statements without iterators are not printed: out of the trace
            st = tlc_stmts(c.prog, [p])
            for s, x in enumerate(c.prog.stmts):
                if x.d == 0:
                    st[s]["dom"] = []
            if small_enough(c.prog, [p]) > 6000 or len(tr[0]) > 2500:
                chk.add("too_large_for_tlc")
                continue
            cid = k * 1000 + i
            who[cid] = (key, rep)
            tl.append({"id": cid, "stmts": st, "ctx": [{"rows": q.rows, "ex": []} for q in c.prog.ctx],
                       "ps": [list(p)], "traces": [[[s] + list(it) for s, it in tr[0]]]})
    verd, st = tlc_batch(chk, "TraceScan", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for cid, vs in verd.items():
        key, rep = who[cid]
        chk.add("traces_validated_against_impl", len(vs))
        for p, v, inst in vs:
            if v != "ok":
                r = dict(rep)
                r["note"] = "parameters %s: %s %s" % (p, v, inst)
                chk.violation(key, v, r)
