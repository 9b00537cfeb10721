"""Random program generators.  Every generated domain is bounded for every
parameter value considered, by construction (triangular bounds)."""
import random
from model import Poly, Stmt, Program


def rnd_aff(rng, n_it, k, npar, pcoef=(0, 0, 1, -1), icoef=(0, 0, 1, -1), c=(-3, 4)):
    """affine expression over outer iterators 0..k-1 and parameters"""
    it = [0] * n_it
    for j in range(k):
        it[j] = rng.choice(icoef)
    pr = [rng.choice(pcoef) for _ in range(npar)]
    return it, pr, rng.randint(*c)


def gen_poly(rng, d, npar, prof, ext=(0, 5)):
    """one polyhedron; prof: dict of probabilities"""
    rows, exb = [], []
    for k in range(d):
        u = rng.random()
        a = 1 if rng.random() > prof.get("coef", .15) else rng.choice([2, 2, 3])
        if k and u < prof.get("eq", .08):
            it, pr, c = rnd_aff(rng, d, k, npar)
            it[k] = -a
            rows.append([0] + it + pr + [c])
            continue
        if not k and u < prof.get("eq", .08) * .5:
            it, pr, c = rnd_aff(rng, d, 0, npar)
            it[k] = -a
            rows.append([0] + it + pr + [c])
            continue
        # lower bound  a*i >= f
        it, pr, c = rnd_aff(rng, d, k, npar, pcoef=(0, 0, 0, 0, 1, -1),
                            icoef=(0, 0, 0, 1, -1), c=(-2, 3))
        lo = [1] + [-x for x in it] + [-x for x in pr] + [-c]
        lo[1 + k] = a
        rows.append(lo)
        # upper bound  b*i <= g
        b = 1 if rng.random() > prof.get("coef", .15) else rng.choice([2, 2, 3])
        it, pr, c2 = rnd_aff(rng, d, k, npar, pcoef=(0, 0, 1, 1, -1) if npar else (0,),
                             icoef=(0, 0, 1, -1), c=(0, 6 if d < 3 else 4))
        hi = [1] + it + pr + [c2 * b + rng.randint(0, b - 1) if b > 1 else c2]
        hi[1 + k] = -b
        rows.append(hi)
    for _ in range(rng.choice((0, 0, 1, 2))):
        if rng.random() < prof.get("cut", .5) and d:
            it = [rng.choice((0, 1, -1, 2, -2, 1, -1)) for _ in range(d)]
            pr = [rng.choice((0, 0, 1, -1)) for _ in range(npar)]
            rows.append([1] + it + pr + [rng.randint(0, 6)])
    if d and rng.random() < prof.get("mod", .0):
        # existential: form - m*e in [0, w]
        m = rng.choice((2, 2, 3, 4, 5))
        w = rng.choice((0, 0, 0, rng.randint(0, m - 1)))
        if not prof.get("window", True):
            w = 0
        it = [0] * d
        for j in range(d):
            it[j] = rng.choice((0, 1, -1, 2, 1))
        if not any(it):
            it[rng.randrange(d)] = 1
        pr = [rng.choice((0, 0, 0, 1)) for _ in range(npar)]
        c = rng.randint(-2, 3)
        new = []
        for r in rows:
            new.append(r[:1 + d] + [0] + r[1 + d:])
        if w == 0:
            new.append([0] + it + [-m] + pr + [c])
        else:
            new.append([1] + it + [-m] + pr + [c])
            new.append([1] + [-x for x in it] + [m] + [-x for x in pr] + [w - c])
        rows = new
        exb = [(-3000, 3000)]
    rng.shuffle(rows) if rng.random() < .5 else None
    return Poly(rows, exb)


def gen_ctx(rng, npar):
    if npar == 0:
        return [Poly([], ())]
    rows = []
    for k in range(npar):
        if rng.random() < .6:
            r = [0] * npar
            r[k] = 1
            rows.append([1] + r + [-rng.randint(-1, 3)])
        if rng.random() < .15:
            r = [0] * npar
            r[k] = -1
            rows.append([1] + r + [rng.randint(3, 7)])
    if npar > 1 and rng.random() < .3:
        r = [0] * npar
        r[0], r[1] = rng.choice(((1, -1), (-1, 1), (1, 1)))
        rows.append([1] + r + [rng.randint(-1, 1)])
    if rng.random() < .05:
        r = [0] * npar
        r[0] = rng.choice((1, 2))
        rows.append([0] + r + [-rng.randint(0, 5)])
    return [Poly(rows)]


def gen_sched(rng, dims, npar, style=None):
    """dims: list of statement depths; returns (nscat, [sch...])"""
    style = style or rng.choice(("2d+1", "2d+1", "affine", "affine", "tile", "skew", "exact", "beta",
                                 "single", "dup"))
    md = max(dims) if dims else 0
    out = []
    if style == "2d+1":
        ns = 2 * md + 1
        order = [rng.sample(range(d), d) if rng.random() < .4 else list(range(d)) for d in dims]
        for d, od in zip(dims, order):
            sch = []
            for k in range(ns):
                comp = [1] + [0] * d + [0] * npar + [0]
                if k % 2 == 0:
                    comp[-1] = rng.choice((0, 0, 0, 1, 1, 2))
                elif k // 2 < d:
                    comp[1 + od[k // 2]] = 1 if rng.random() < .85 else -1
                    comp[-1] = rng.choice((0, 0, 0, 1, -2))
                sch.append(comp)
            out.append(sch)
    elif style == "beta":
        ns = md + 1
        first = rng.random() < .5
        for d in dims:
            sch = []
            for k in range(ns):
                comp = [1] + [0] * d + [0] * npar + [0]
                kk = k - 1 if first else k
                if (first and k == 0) or (not first and k == ns - 1):
                    comp[-1] = rng.randint(0, 3)
                elif kk < d:
                    comp[1 + kk] = 1
                sch.append(comp)
            out.append(sch)
    elif style in ("affine", "skew", "single", "dup"):
        ns = 1 if style == "single" else rng.randint(1, 3)
        for idx, d in enumerate(dims):
            if style == "dup" and idx and d == dims[idx - 1] and rng.random() < .7:
                sch = [list(x) for x in out[-1]]
                if rng.random() < .5:
                    sch[-1][-1] += rng.choice((1, 1, -1, 2))
                out.append(sch)
                continue
            sch = []
            for k in range(ns):
                co = [rng.choice((0, 1, 1, -1, 2) if style == "affine" else (0, 1, 1)) for _ in range(d)]
                pr = [rng.choice((0, 0, 0, 1)) for _ in range(npar)]
                sch.append([1] + co + pr + [rng.randint(-2, 3)])
            out.append(sch)
    elif style == "tile":
        nt = rng.randint(1, 2)
        ns = nt + md
        for d in dims:
            sch = []
            for k in range(nt):
                co = [0] * d
                if k < d:
                    co[k] = 1
                    if rng.random() < .3 and d > 1:
                        co[rng.randrange(d)] = 1
                sch.append([rng.choice((2, 3, 4))] + co + [0] * npar + [rng.choice((0, 0, 1))])
            for k in range(md):
                co = [0] * d
                if k < d:
                    co[k] = 1
                    if k and rng.random() < .3:
                        co[0] = 1
                sch.append([1] + co + [0] * npar + [0])
            out.append(sch)
    elif style == "exact":
        ns = rng.randint(1, 2)
        for d in dims:
            sch = []
            for k in range(ns):
                co = [rng.choice((0, 1, 1, 2, 3)) for _ in range(d)]
                pr = [rng.choice((0, 0, 0, 1)) for _ in range(npar)]
                sch.append([rng.choice((1, 1, -2, -3))] + co + pr + [rng.randint(-2, 3)])
            out.append(sch)
    return ns, out


def gen_program(rng, npar=None, nst=None, depth=None, prof=None, sched=None, maxun=3, mixed=True):
    prof = prof or {}
    npar = rng.choice((0, 1, 1, 2)) if npar is None else npar
    nst = rng.choice((1, 1, 2, 2, 3, 4)) if nst is None else nst
    md = rng.choice((1, 2, 2, 3)) if depth is None else depth
    stmts = []
    base = None
    for s in range(nst):
        d = md if rng.random() < .7 or not mixed else rng.randint(0 if nst > 1 else 1, md)
        u = 1
        if rng.random() < prof.get("union", .25):
            u = rng.randint(2, maxun)
        polys = []
        for _ in range(u):
            if base is not None and base[0] == d and rng.random() < prof.get("same", .3):
                q = Poly(base[1].rows, base[1].ex)
                if rng.random() < .6 and q.rows:      # perturb a bound
                    i = rng.randrange(len(q.rows))
                    if not q.ex:
                        q.rows[i][-1] += rng.choice((-1, 1, 2, -2))
                    # equalities stay consistent enough: an empty piece is legal
            else:
                q = gen_poly(rng, d, npar, prof)
            base = (d, q)
            polys.append(q)
        if rng.random() < prof.get("empty", .03):
            polys.append(Poly([[1] + [0] * d + [0] * npar + [-1]] +
                              [[1] + [0] * d + [0] * npar + [3]]))
        stmts.append(Stmt(d, polys))
    ns = 0
    if sched is None:
        sched = rng.random() < .6
    if sched:
        ns, schs = gen_sched(rng, [s.d for s in stmts], npar,
                             sched if isinstance(sched, str) else None)
        for st, sc in zip(stmts, schs):
            st.sch = sc
    return Program(npar, gen_ctx(rng, npar), stmts, ns)


def gen_lattice(rng, sched=False):
    """statements over nearly the same box, whose iterators are in residue
    classes that have much in common: the generator looks for the stride the
    loops of a level share"""
    npar = rng.choice((0, 1, 1))
    md = rng.choice((1, 2, 2) if sched else (1, 2, 2, 3))
    nst = rng.choice((1, 2, 2, 3, 3, 4))
    g = [rng.choice((2, 2, 3, 4)) if rng.random() < .7 else 1 for _ in range(md)]
    off = [rng.randint(0, 3) for _ in range(md)]
    lo = [rng.randint(-3, 2) for _ in range(md)]
    ext = [rng.choice((3, 5, 7) if md > 1 else (5, 9, 12)) for _ in range(md)]
    tri = [rng.choice((0, 0, 1, -1)) if k else 0 for k in range(md)]
    stmts = []
    for s in range(nst):
        d = md if rng.random() < .75 else rng.randint(1, md)
        cong, eqs = [], []
        for k in range(d):
            if g[k] == 1 and rng.random() < .8:
                continue
            m = g[k] * rng.choice((1, 1, 1, 2, 2, 3))
            c = off[k] + g[k] * rng.choice((0, 0, 1, 2)) + (1 if rng.random() < .1 else 0)
            out = rng.choice((0, 0, 0, 1, -1)) if k else 0
            par = rng.choice((0, 0, 0, 1)) if npar else 0
            (cong if rng.random() < .7 or d == 3 else eqs).append((k, m, c, out, par))
        ne, dd = len(cong), d + len(eqs)
        rows = []

        def row(t, it, ex, pr, c):
            rows.append([t] + it + [0] * (dd - len(it)) + ex + pr + [c])
        for k in range(d):
            it = [0] * d
            it[k] = 1
            row(1, it, [0] * ne, [0] * npar, -lo[k] + rng.choice((0, 0, 0, 1, -1)))
            it = [0] * d
            it[k] = -1
            if k:
                it[k - 1] = tri[k]
            par = rng.choice((1, 1, 0)) if npar else 0
            row(1, it, [0] * ne, [par] * npar, lo[k] + ext[k] + rng.choice((0, 0, 1, -1)) - par)
        for e, (k, m, c, out, par) in enumerate(cong + eqs):
            it = [0] * dd
            it[k] = 1
            if k:
                it[k - 1] = out
            ex = [0] * ne
            if e < ne:
                ex[e] = -m
            else:
                it[d + e - ne] = -m
            row(0, it, ex, [par] * npar, -c)
        if rng.random() < .3:
            rng.shuffle(rows)
        stmts.append(Stmt(dd, [Poly(rows, [(-3000, 3000)] * ne)]))
    ns = 0
    if sched:
        ns, schs = gen_sched(rng, [s.d for s in stmts], npar, sched)
        for st, sc in zip(stmts, schs):
            st.sch = sc
    return Program(npar, gen_ctx(rng, npar), stmts, ns)


OPTS = [
    lambda r: ["-f", str(r.choice((1, 2, 3, 4, -1)))],
    lambda r: ["-l", str(r.choice((1, 2, 3, 4, -1)))],
    lambda r: ["-strides", "1"],
    lambda r: ["-strides", "1"],
    lambda r: ["-sh", "1"],
    lambda r: ["-otl", "0"],
    lambda r: ["-esp", "0"],
    lambda r: ["-fsp", str(r.choice((2, 3, 4)))],
    lambda r: ["-block", "1"],
    lambda r: ["-noblocks"],
    lambda r: ["-noscalars"],
    lambda r: ["-first-unroll", str(r.choice((1, 2, 3)))],
]


def gen_options(rng, lo=0, hi=4, opts=OPTS):
    k = rng.randint(lo, hi)
    out = []
    for f in rng.sample(opts, min(k, len(opts))):
        out += f(rng)
    return out
