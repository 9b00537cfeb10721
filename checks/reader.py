"""C08: the input file, however it is written, is the same program."""
from core import *
import gen as G
import notation as NT
from scan import corpus


def case(r, k, isl=False, sched=False):
    p = G.gen_program(r, sched=sched, depth=r.choice((1, 2, 2, 3)),
                      prof={"mod": .25 if r.random() < .5 else 0, "union": .3 if not isl else .2})
    if any(q.ex for s in p.stmts for q in s.polys):
        for s in p.stmts:
            s.polys = s.polys[:1]           # (see C04: no unions with congruences)
    if r.random() < .15 and p.np:
        p.ctx = p.ctx + G.gen_ctx(r, p.np)
    NT.add_names(p, r)
    p.lang = r.choice("ccf")
    return Case(p, text=(NT.isl_file if isl else NT.polylib)(p, r), tag="isl" if isl else "notation", nm=True)


SCH = ("2d+1", "beta", "single", "skew")


def c08(chk):
    b = chk.build() + "/gen"
    q = 1 if chk.quick else 8
    run_cases(chk, b, corpus(chk, "notation", 1000 * q, case) +
              corpus(chk, "notation-s", 600 * q, lambda r, k: case(r, k, sched=r.choice(SCH)), fixed=True) +
              corpus(chk, "isl", 400 * q, lambda r, k: case(r, k, True)) +
              corpus(chk, "isl-s", 250 * q, lambda r, k: case(r, k, True, r.choice(SCH)), fixed=True),
              tlc_share=.4)


def c12(chk):
    """the dump of an input is an input file for the same program"""
    b = chk.build() + "/gen"
    q = 1 if chk.quick else 8
    cs = (corpus(chk, "notation", 700 * q, case) +
          corpus(chk, "notation-s", 500 * q, lambda r, k: case(r, k, sched=r.choice(SCH)), fixed=True) +
          corpus(chk, "isl", 350 * q, lambda r, k: case(r, k, True)) +
          corpus(chk, "isl-s", 250 * q, lambda r, k: case(r, k, True, r.choice(SCH)), fixed=True))
    n = len(cs) // (4 * NCPU) + 1
    parts = [cs[i:i + n] for i in range(0, len(cs), n)]
    new = []
    for part, res in zip(parts, pmap(_dumps, [(b, x, chk.tmp) for x in parts])):
        for i, c in enumerate(part):
            if c.key in chk.slow:
                continue
            j = res.get(i) or {"exit": -1, "sig": -1}
            if "dump" in j:
                d = Case(c.prog, text=j["dump"], nm=True, tag="dump")
                d.key = key_of(c.text, ["@dump"])       # whatever the dump looks like
                new.append(d)
            elif j["sig"] not in (9, 14, 24):
                chk.violation(c.key, "crash", replay_of(c, None, "exit %d signal %d" % (j["exit"], j["sig"])))
    chk.add("dumps", len(new))
    run_cases(chk, b, new, tlc_share=.4)


def _dumps(a):
    b, cs, tmp = a
    return run_gen(b, [(i, c.text, ["@dump"]) for i, c in enumerate(cs)], tmp, 8)


CHECKS = {"C08": c08, "C12": c12}
