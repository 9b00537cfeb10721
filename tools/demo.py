"""Demonstration: prints code for input.cloog with the built cloog, compiles
and runs it, and compares the executed statement instances with expected.json
(set of instances; their dates must not decrease).  Exit 0 if they agree."""
import json, os, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
E = json.load(open(os.path.join(HERE, "expected.json")))
CLOOG = os.path.join(os.getcwd(), "_build", "cloog")
D = tempfile.mkdtemp(prefix="demo_")


def fail(m):
    print("FAIL: " + m)
    sys.exit(1)


def run(cmd, **kw):
    return subprocess.run(cmd, cwd=D, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


try:
    shutil.copy(os.path.join(HERE, "input.cloog"), D)
    r = run([CLOOG] + E["options"] + ["input.cloog"], timeout=100)
    if r.returncode:
        fail("cloog exits with %d: %s" % (r.returncode, r.stderr[-300:]))
    txt = r.stdout
    ps = E["params"]
    names = "MNOPQ"[:len(ps)]
    dep = E["depths"]
    main = '#include <stdio.h>\n#include <stdlib.h>\nstatic int n; void hash(int v) { printf("%d ", v); if (++n > 200000) exit(0); }\n' \
           'void rec_(int *v) { hash(*v); }\nvoid t_(' + (",".join("int " + x for x in names) or "void") + ");\n" \
           "int main(void) { t_(%s); return 0; }\n" % ",".join(map(str, ps))
    open(D + "/main.c", "w").write(main)
    if E["mode"] == "fortran":
        o = ["#define S%d(%s) CALL rec%d(%s)" % (s + 1, ",".join("a%d" % i for i in range(d)), d,
             ",".join([str(s + 1)] + ["(3*a%d)" % i for i in range(d)])) for s, d in enumerate(dep)]
        o += ["SUBROUTINE t_(%s) BIND(C, name='t_')" % ",".join(names), "IMPLICIT NONE"]
        if names:
            o.append("INTEGER, VALUE :: " + ", ".join(names))
        it = sorted({x for x in re.findall(r"(?:^|\bDO )\s*([A-Za-z_]\w*)\s*=(?!=)", txt, re.M)})
        if it:
            o.append("INTEGER :: " + ", ".join(it))
        o += [l for l in txt.splitlines() if not l.startswith("!")] + ["END SUBROUTINE"]
        for d in range(6):
            a = ["s"] + ["a%d" % i for i in range(d)]
            o += ["SUBROUTINE rec%d(%s)" % (d, ",".join(a)), "INTEGER :: " + ",".join(a)]
            o += ["CALL rec(%s)" % x for x in a] + ["END SUBROUTINE"]
        open(D + "/p.F90", "w").write("\n".join(o) + "\n")
        r = run(["gcc", "-w", "-c", "main.c"])
        r = run(["gfortran", "-cpp", "-ffree-line-length-none", "-w", "-o", "x", "main.o", "p.F90"])
    else:
        o = ["#define floord(n,d) (((n)<0) ? -((-(n)+(d)-1)/(d)) : (n)/(d))",
             "#define ceild(n,d)  (((n)<0) ? -((-(n))/(d)) : ((n)+(d)-1)/(d))",
             "#define max(x,y)    ((x) > (y) ? (x) : (y))", "#define min(x,y)    ((x) < (y) ? (x) : (y))",
             "extern void hash(int);"]
        o += ["#define S%d(%s) { hash(%d); %s }" % (s + 1, ",".join("a%d" % i for i in range(d)), s + 1,
              " ".join("hash(3*a%d);" % i for i in range(d))) for s, d in enumerate(dep)]
        o.append("void t_(%s) {" % (",".join("int " + x for x in names) or "void"))
        it = sorted(set(re.findall(r"\b([A-Za-z_]\w*)\s*(?:=(?!=))", txt)))
        if it:
            o.append("int " + ",".join(it) + ";")
        open(D + "/p.c", "w").write("\n".join(o + [txt, "}"]) + "\n")
        r = run(["gcc", "-w", "-o", "x", "main.c", "p.c"])
    if r.returncode:
        fail("does not compile: " + r.stderr[-400:] + "\n" + txt)
    v = [int(x) for x in run(["./x"], timeout=100).stdout.split()]
    got, i = [], 0
    while i < len(v):
        d = dep[v[i] - 1]
        t = v[i + 1:i + 1 + d]
        if any(x % 3 for x in t):
            fail("argument not safe in an expression")
        got.append((v[i],) + tuple(x // 3 for x in t))
        i += 1 + d
    want = {tuple(x): d for x, d in E["instances"]}
    if sorted(got) != sorted(want):
        fail("executed %s, expected %s\n%s" % (sorted(got)[:20], sorted(want)[:20], txt))
    for a, b in zip(got, got[1:]):
        if want[b] < want[a]:
            fail("%s after %s: dates %s, %s\n%s" % (b, a, want[b], want[a], txt))
    print("ok")
finally:
    shutil.rmtree(D, ignore_errors=True)
