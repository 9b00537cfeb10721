"""C11: programs built with library calls."""
from core import *
import gen as G
import notation as NT
from scan import corpus
from reader import SCH


def mat(rows, ncol):
    return "%d %d %s" % (len(rows), ncol, " ".join(str(v) for x in rows for v in x))


class Script:
    """lines with dependencies, put out in a random order that respects them"""
    def __init__(self, r):
        self.r, self.l = r, []

    def add(self, line, *after):
        self.l.append((line, [a for a in after if a is not None]))
        return len(self.l) - 1

    def text(self):
        done, out = set(), []
        while len(done) < len(self.l):
            k = self.r.choice([i for i in range(len(self.l)) if i not in done and
                               all(a in done for a in self.l[i][1])])
            done.add(k)
            out.append(self.l[k][0])
        return "\n".join(out) + "\n"


OPTS = {"f": (1, 2, 3, -1), "sh": (0, 1), "otl": (0, 1), "esp": (0, 1), "fsp": (1, 2, 3), "strides": (0, 1),
        "block": (0, 1), "noscalars": (0, 1), "noblocks": (0, 1), "first_unroll": (-1, 2), "language": (0, 1)}


def names(p):
    return p.pnames or ["M", "N", "O", "P"][:p.np]


def build(r, p, mode):
    """a script that builds p and prints its AST"""
    s = Script(r)
    st = s.add(r.choice(("state 0", "islstate 0")))
    op = s.add("options 0 0", st)
    opts = [s.add("opt 0 %s %d" % (k, r.choice(OPTS[k])), op)
            for k in r.sample(sorted(OPTS), r.choice((0, 0, 1, 2)))]
    pn = names(p)
    md = max(x.d for x in p.stmts)
    if mode == "matrix":
        c = s.add("dmat 0 0 %d %s" % (p.np, mat(p.ctx[0].rows, 2 + p.np)), st)
        for k, q in enumerate(p.ctx[1:]):
            c = s.add("dunion 0 0 %d" % (60 - k), c,
                      s.add("dmat %d 0 %d %s" % (60 - k, p.np, mat(q.rows, 2 + p.np)), st))
    else:
        c = s.add("dstr 0 0 " + NT.isl_ctx(p.ctx, pn, r), st)
    if mode == "umap":
        ms = [NT.isl_map(x, pn, p.nscat, r, x.name) for x in p.stmts]
        doms = [NT.isl_set(x.polys, x.d, pn, r) for x in p.stmts]
        body = []
        for x, m, d in zip(p.stmts, ms, doms):
            inner = m[m.index("{") + 1:m.rindex("}")].strip()
            cond = d[d.index(":") + 1:d.rindex("}")].strip()
            body.append(inner + (" and (%s)" if " : " in inner else " : (%s)") % cond)
        last = s.add("udumap 0 0 %s{ %s }" % ("[%s] -> " % ", ".join(pn) if pn else "", "; ".join(body)), st)
        p.pnames = pn or None
        adds = [last]
    elif mode == "uset":
        x = p.stmts[0]
        dims = p.inames or NT_DIMS[:x.d]
        t = NT.isl_set(x.polys, x.d, pn, r, dims)
        t = t.replace("{ [", "{ %s[" % x.name, 1)
        last = s.add("uduset 0 0 " + t, st)
        p.pnames, p.inames = pn or None, dims
        adds = [last]
    else:
        adds = []
        u = s.add("ud 0 %d" % p.np)
        prev = u
        for k, x in enumerate(p.stmts):
            D = k + 1
            if mode == "matrix":
                d = s.add("dmat %d 0 %d %s" % (D, p.np, mat(x.polys[0].rows, 2 + x.d + p.np)), st)
                for j, q in enumerate(x.polys[1:]):
                    e = s.add("dmat %d 0 %d %s" % (10 + 4 * k + j, p.np, mat(q.rows, 2 + x.d + p.np)), st)
                    d = s.add("dunion %d %d %d" % ((D, D, 10 + 4 * k + j) if r.random() < .5 else
                                                   (D, 10 + 4 * k + j, D)), d, e)
                    if r.random() < .2:
                        d = s.add("dsimpu %d %d" % (D, D), d)
            else:
                d = s.add("dstr %d 0 %s" % (D, NT.isl_set(x.polys, x.d, pn, r)), st)
            if r.random() < .15:
                d = s.add("dcopy 9 %d\ndfree %d\ndcopy %d 9\ndfree 9" % (D, D, D), d)
            t = None
            if p.nscat:
                rows = scat_rows(x, p.np, p.nscat)
                t = s.add("tmat %d 0 %d %d %s" % (D, p.nscat, p.np, mat(rows, 2 + p.nscat + x.d + p.np))
                          if mode == "matrix" else "tstr %d 0 %s" % (D, NT.isl_map(x, pn, p.nscat, r)), st)
            prev = s.add("add 0 %s %d %d %d" % (x.name or "-", D, D if p.nscat else -1, x.usr), prev, d, t)
            adds.append(prev)
        if p.pnames:
            for k, v in enumerate(p.pnames):
                adds.append(s.add("name 0 p %d %s" % (k, v), u))
        late = list(adds)
        for kind, ns in (("i", p.inames), ("s", p.snames)):
            for k, v in enumerate(ns or []):
                a = None
                if r.random() < .2:
                    a = s.add("name 0 %s %d wrong_%d" % (kind, k, k), *late)
                adds.append(s.add("name 0 %s %d %s" % (kind, k, v), *(late if a is None else [a])))
    if mode == "umap":                      # names may be set afterwards
        for kind, ns in (("i", p.inames), ("s", p.snames)):
            for k, v in enumerate(ns or []):
                adds.append(s.add("name 0 %s %d %s" % (kind, k, v), last))
    if r.random() < .7:
        i = s.add("input 0 0 0", c, *adds)
        g = s.add("gen 0 0 0", i, op, *opts)
    else:
        i = s.add("prog 0 0 0 0", c, op, *(adds + opts))
        g = s.add("pgen 0 0\npclast 0 0 0\npfree 0", i)
    e = s.add("ast 0", g)
    e = s.add("text 0 0", g)
    return s.text() + "afree 0\nofree 0\nsfree 0\n"


NT_DIMS = ["i0", "i1", "i2", "i3"]


def case(r, k, mode, sched=False):
    p = G.gen_program(r, sched=sched, depth=r.choice((1, 2, 2, 3)), nst=1 if mode == "uset" else None,
                      prof={"mod": .25 if mode != "matrix" and r.random() < .5 else 0, "union": .3})
    if any(q.ex for s in p.stmts for q in s.polys):
        for s in p.stmts:
            s.polys = s.polys[:1]           # (see C04: no unions with congruences)
    if r.random() < .15 and p.np:
        p.ctx = p.ctx + G.gen_ctx(r, p.np)
    if mode == "umap":
        # (isl drops the empty maps of a union, and the space with them)
        al = list(itertools.product(range(-2, 5), repeat=p.np))
        p.stmts = [x for j, x in enumerate(p.stmts) if any(p.points(j, q) for q in al)]
        if not p.stmts:
            return case(r, k, mode, sched)
    NT.add_names(p, r)
    if mode == "umap" and not p.pnames:
        p.pnames = names(p) or None
    pool = r.sample(["S%d" % k for k in range(9, 0, -1)] + ["foo", "bar", "stmt_a", "A", "zz9", "T_1"], len(p.stmts))
    for x, nm in zip(p.stmts, pool):
        if mode in ("umap", "uset") or r.random() < .6:
            x.name = nm
        x.usr = r.choice((0, 1, 2, 77, 200)) if mode in ("matrix", "isl") else 0
    t = build(r, p, mode)
    return Case(p, text=t, tag="umap" if mode == "umap" else "lib-" + mode, nm=True)


def c11(chk):
    b = chk.build(progs=("api",)) + "/api"
    q = 1 if chk.quick else 8
    cs = []
    cs += corpus(chk, "matrix", 500 * q, lambda r, k: case(r, k, "matrix"))
    cs += corpus(chk, "matrix-s", 400 * q, lambda r, k: case(r, k, "matrix", r.choice(SCH)), fixed=True)
    cs += corpus(chk, "isl", 350 * q, lambda r, k: case(r, k, "isl"))
    cs += corpus(chk, "isl-s", 250 * q, lambda r, k: case(r, k, "isl", r.choice(SCH)), fixed=True)
    cs += corpus(chk, "umap", 300 * q, lambda r, k: case(r, k, "umap", r.choice(SCH)), fixed=True)
    cs += corpus(chk, "uset", 200 * q, lambda r, k: case(r, k, "uset"))
    run_cases(chk, b, cs, tlc_share=.4)


CHECKS = {"C11": c11}
