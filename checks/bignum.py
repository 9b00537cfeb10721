"""C19: numbers of any size.  A program moved by a multiple of a huge unit has
to be scanned like the same program moved by a small one: TLC judges the code
for the huge numbers with the huge unit replaced by the small one."""
from core import *
import copy
import gen as G
import library
import notation as NT
from printed import run_printed
from scan import corpus
from reader import SCH
from annot import generate

UNITS = [UNIT * (b // UNIT + k) for b in (2**31, 2**32, 2**63, 2**64, 10**30) for k in (1, 2, 5)]


def moved(p, v, w, unit):
    """p with iterator i moved by v[i] units and date k by w[k] units"""
    q = copy.copy(p)
    q.stmts = []
    for s in p.stmts:
        t = Stmt(s.d, [], None, s.name)
        for y in s.polys:
            rows = []
            for r in y.rows:
                r = list(r)
                r[-1] -= unit * sum(a * b for a, b in zip(r[1:1 + s.d], v))
                rows.append(r)
            t.polys.append(Poly(rows, y.ex, [a * unit for a in v[:s.d]]))
        if s.sch is not None:
            t.sch = []
            for c, k in zip(s.sch, w):
                c = list(c)
                c[-1] += unit * (k * abs(c[0]) - sum(a * b for a, b in zip(c[1:1 + s.d], v)))
                t.sch.append(c)
        q.stmts.append(t)
    return q


def case(r, sched=False, mod=True):
    # (printed code is only run without congruences: see the finding about remainders)
    p = G.gen_lattice(r, sched) if mod and r.random() < .2 else G.gen_program(
        r, sched=sched, depth=r.choice((1, 2, 2, 3)), nst=r.choice((1, 2, 2, 3)),
        prof={"mod": .3, "union": 0, "window": False} if mod and r.random() < .3 else {"mod": 0, "union": .2})
    v = [r.choice((1, -1, 1, 0, 3)) for _ in range(6)]
    w = [r.choice((0, 0, 1, -1, 2)) for _ in range(p.nscat or 0)]
    u = r.choice(UNITS)
    o = G.gen_options(r, 0, 3)
    if "-strides" not in o and r.random() < .3:
        o += ["-strides", "1"]
    c = Case(moved(p, v, w, UNIT), o, tag="big", text=to_text(moved(p, v, w, u)))
    c.unit = u
    return c


def lib_case(r, k, mode, sched=False):
    """the same, built by library calls"""
    p = G.gen_program(r, sched=sched, depth=r.choice((1, 2, 2)), nst=r.choice((1, 2, 3)), prof={"mod": 0, "union": .2})
    NT.add_names(p, r)
    v = [r.choice((1, -1, 1, 0, 3)) for _ in range(6)]
    w = [r.choice((0, 0, 1, -1, 2)) for _ in range(p.nscat or 0)]
    u = r.choice(UNITS)
    c = Case(moved(p, v, w, UNIT), tag="big", text=library.build(r, moved(p, v, w, u), mode))
    c.unit = u
    return c


def small(txt, unit):
    return re.sub(r"(?<![\w.])\d{6,}(?!\w)", lambda m: str(rescale(int(m.group()), unit)), txt)


def c19(chk):
    q = 1 if chk.quick else 6
    g = chk.build() + "/gen"
    cs = corpus(chk, "big", 1000 * q, lambda r, k: case(r)) + \
        corpus(chk, "big-s", 800 * q, lambda r, k: case(r, r.choice(SCH)), fixed=True)
    run_cases(chk, g, cs, .35)
    cs = corpus(chk, "big-m", 150 * q, lambda r, k: lib_case(r, k, "matrix")) + \
        corpus(chk, "big-ms", 150 * q, lambda r, k: lib_case(r, k, "matrix", r.choice(SCH)), fixed=True) + \
        corpus(chk, "big-i", 100 * q, lambda r, k: lib_case(r, k, "isl"))
    run_cases(chk, chk.build(progs=("api",)) + "/api", cs, .35)
    # printed; dumped, read again and printed
    cs = corpus(chk, "big-t", 250 * q, lambda r, k: case(r, mod=False)) + \
        corpus(chk, "big-ts", 100 * q, lambda r, k: case(r, r.choice(SCH), False), fixed=True)
    again, run = [], []
    for c, toks, j in generate(chk, cs, lambda c, r: ["@text"] + (["@dump"] if r.random() < .5 else [])):
        try:
            c.printed = small(j["text"], c.unit)
        except Fraction:
            chk.add("left_out")
            continue
        except Unsupported as e:
            chk.violation(c.key, "malformed", dict(replay_of(c, j, str(e)), printed=j["text"]))
            continue
        run.append(c)
        if "dump" in j:
            d = Case(c.prog, c.opts, tag="big", text=j["dump"])
            d.unit = c.unit
            again.append(d)
    run_printed(chk, None, run, "given")
    run_cases(chk, g, again, .35)


CHECKS = {"C19": c19}
