"""C06, C07: what the printed C and Fortran execute."""
from core import *
import gen as G
from printed import run_printed, run_compilable
from scan import corpus

# constructs of the printed text: strides, one-time loops, blocks, unrolling
NOWIN = {"window": False}


def prog(r, sched, lang="c", win=False, **prof):
    pr = {"mod": .35, "union": 0, "window": win}
    pr.update(prof)
    if pr["mod"] == 0 and "union" not in prof:
        pr["union"] = .2
    p = G.gen_program(r, sched=sched, prof=pr)
    p.lang = lang
    return p


def case(r, k, lang="c", win=False, sched=False):
    if r.random() < .5:
        p = prog(r, sched, lang, win)
    else:
        p = prog(r, sched, lang, win, mod=0)
    return Case(p, G.gen_options(r, 0, 3), tag="print")


SCH = ("2d+1", "beta", "single", "skew")


def remainder_window():
    """The known finding of C06: "e%m <= k" is printed for 0 <= e mod m <= k,
    but C's remainder is negative for negative e (listed in
    known-findings.txt, see DESIGN.md); the other pools have no such windows."""
    p = G.Program(1, [G.Poly([[1, 1, 10]])], [G.Stmt(1, [G.Poly(
        [[1, 1, 0, 0, 7], [1, -1, 0, 0, 7], [1, 1, -3, 0, 0], [1, -1, 3, 0, 1]], [(-3000, 3000)])])])
    return Case(p, [], tag="remainder")


def c06(chk):
    b = chk.build(progs=("cloog",)) + "/cloog"
    q = 1 if chk.quick else 6
    run_printed(chk, b, [remainder_window()], "plain")
    run_printed(chk, b, corpus(chk, "callable", 450 * q, case) +
                corpus(chk, "callable-s", 250 * q, lambda r, k: case(r, k, sched=r.choice(SCH)), fixed=True),
                "callable")
    run_printed(chk, b, corpus(chk, "plain", 400 * q, case) +
                corpus(chk, "plain-s", 250 * q, lambda r, k: case(r, k, sched=r.choice(SCH)), fixed=True),
                "plain")
    run_compilable(chk, b, corpus(chk, "compilable", 300 * q, case))


def c07(chk):
    b = chk.build(progs=("cloog",)) + "/cloog"
    q = 1 if chk.quick else 6
    run_printed(chk, b, corpus(chk, "fortran", 400 * q, lambda r, k: case(r, k, "f", True)) +
                corpus(chk, "fortran-s", 250 * q, lambda r, k: case(r, k, "f", True, r.choice(SCH)), fixed=True),
                "fortran")


CHECKS = {"C06": c06, "C07": c07}
