"""C01-C05: the AST against Scan (exactness, order, options, lattices, unions)."""
from core import *
import gen as G


def corpus(chk, salt, n, fn, fixed=False):
    """n cases; fixed: the same pool whatever VERIF_SEED is.  The pools with
    scattering functions are fixed because a small share of them runs into the
    known finding about crossing dates, whose inputs are listed one by one."""
    rng = random.Random("pool/%s/%s" % (chk.pid, salt)) if fixed else chk.rng(salt)
    return [fn(rng, k) for k in range(n)]


def c01(chk):
    b = chk.build() + "/gen"
    q = 1 if chk.quick else 8
    cs = []
    cs += corpus(chk, "plain", 1800 * q, lambda r, k: Case(G.gen_program(r, sched=False), tag="plain"))
    cs += corpus(chk, "coef", 900 * q, lambda r, k: Case(G.gen_program(
        r, sched=False, prof={"coef": .5, "eq": .2, "cut": .9, "union": .1}), tag="coef"))
    cs += corpus(chk, "deep", 300 * q, lambda r, k: Case(G.gen_program(
        r, sched=False, depth=4, npar=1, nst=r.choice((1, 2, 3)), prof={"union": .05, "cut": .8}),
        tag="deep", pr=(-1, 4), np_=6))
    cs += corpus(chk, "2d+1", 900 * q, lambda r, k: Case(G.gen_program(r, sched="2d+1"), tag="2d+1"), fixed=True)
    run_cases(chk, b, cs)


def c02(chk):
    b = chk.build() + "/gen"
    q = 1 if chk.quick else 8
    cs = []
    for sty, n in (("2d+1", 900), ("beta", 700), ("single", 300), ("dup", 400), ("skew", 400),
                   ("exact", 300), ("tile", 200), ("affine", 300)):
        cs += corpus(chk, sty, n * q, lambda r, k: Case(G.gen_program(
            r, sched=sty, prof={"union": .15}), tag=sty), fixed=True)
    cs += corpus(chk, "many", 300 * q, lambda r, k: Case(G.gen_program(
        r, sched=r.choice(("2d+1", "beta")), nst=r.choice((4, 5, 6)), depth=r.choice((1, 2)),
        prof={"union": .05, "same": .6}), tag="many"), fixed=True)
    run_cases(chk, b, cs)


def c03(chk):
    b = chk.build() + "/gen"
    q = 1 if chk.quick else 8

    def free(r, k):
        return Case(G.gen_program(r, sched=False), G.gen_options(r, 1, 4), tag="opts")

    def sch(r, k):
        p = G.gen_program(r, sched=r.choice(("2d+1", "beta", "single", "skew")))
        return Case(p, G.gen_options(r, 1, 4), tag="opts-sch")
    def stm(r, k):
        """statement-wise first/last depths, a library option"""
        p = G.gen_program(r, sched=r.choice(("2d+1", "beta", False, False)), nst=r.choice((2, 3, 4)),
                          prof={"union": .1, "same": .5})
        n = len(p.stmts)
        # (last depths above the scattering dimensions: a smaller -l is
        # documented to give incorrect code)
        o = ["@fs=" + ",".join(str(r.choice((1, 2, 3, 4, -1))) for _ in range(n)),
             "@ls=" + ",".join(str(r.choice((p.nscat + 1, p.nscat + 2, max(1, p.nscat), -1)))
                               for _ in range(n))]
        return Case(p, o + G.gen_options(r, 0, 2), tag="stmt-opts")
    run_cases(chk, b, corpus(chk, "opts", 1700 * q, free) +
              corpus(chk, "stmt-opts", 400 * q, stm, fixed=True) +
              corpus(chk, "opts-sch", 1700 * q, sch, fixed=True) +
              corpus(chk, "backtrack", 150 * q, lambda r, k: Case(
                  G.gen_program(r, sched=False, depth=r.choice((1, 2))), ["-backtrack"],
                  tag="backtrack"), fixed=True))


def c04(chk):
    b = chk.build() + "/gen"
    q = 1 if chk.quick else 8

    # (unions that mix a modulo with another polyhedron run into a defect of
    # isl 0.26's coalescing, which is not CLooG's: none of them here)
    def one(r, k, sched=False):
        p = G.gen_program(r, sched=sched,
                          prof={"mod": .6, "union": 0, "coef": .1}, depth=r.choice((1, 2, 2, 3)))
        return Case(p, (["-strides", "1"] if r.random() < .5 else []), tag="mod")

    def sch(r, k):
        return one(r, k, r.choice(("2d+1", "beta", "exact", "single")))

    def lat(r, k, sched=False):
        o = ["-strides", "1"] if r.random() < .85 else []
        return Case(G.gen_lattice(r, sched), o + (G.gen_options(r, 1, 2) if r.random() < .3 else []),
                    tag="lattice", np_=8)
    run_cases(chk, b, corpus(chk, "mod", 1500 * q, one) +
              corpus(chk, "lattice", 900 * q, lat) +
              corpus(chk, "lattice-s", 400 * q, lambda r, k: lat(r, k, r.choice(("2d+1", "beta", "exact"))),
                     fixed=True) +
              corpus(chk, "mod-sch", 1200 * q, sch, fixed=True))


def c05(chk):
    b = chk.build() + "/gen"
    q = 1 if chk.quick else 8

    def one(r, k, sched=False):
        p = G.gen_program(r, sched=sched, prof={"union": .8, "empty": .1, "same": .5},
                          maxun=4, depth=r.choice((1, 2, 2, 3)))
        return Case(p, tag="union")
    run_cases(chk, b, corpus(chk, "union", 1800 * q, one) +
              corpus(chk, "union-sch", 900 * q, lambda r, k: one(r, k, "2d+1"), fixed=True))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
