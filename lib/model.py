"""Program model shared by generators, writers and the TLA+ case files.

A row is [kind, it..., ex..., params..., const] (kind 0: = 0, kind 1: >= 0).
A date component is [d, it..., params..., const]: floor(affine/d) for d >= 1,
exact quotient affine/|d| for d <= -1 (see Scan.tla)."""
import itertools
import numpy as np


class Poly:
    __slots__ = ("rows", "ex", "off")

    def __init__(self, rows, ex=(), off=()):
        self.rows = [list(r) for r in rows]
        self.ex = [tuple(e) for e in ex]        # search box of the existentials
        self.off = list(off)                    # centre of the search box of the iterators


class Stmt:
    __slots__ = ("d", "polys", "sch", "name", "usr")

    def __init__(self, d, polys, sch=None, name=None):
        self.d = d
        self.polys = polys
        self.sch = sch                           # list of comps or None
        self.name = name
        self.usr = 0


class Program:
    def __init__(self, np_, ctx, stmts, nscat=0, lang="c", pnames=None,
                 inames=None, snames=None):
        self.np = np_
        self.ctx = ctx                           # list of Poly over params only
        self.stmts = stmts
        self.nscat = nscat
        self.lang = lang
        self.pnames, self.inames, self.snames = pnames, inames, snames

    # ---- semantics (used to pick cases and sizes; the verdict is TLC's) ----
    def in_ctx(self, p):
        return any(poly_contains(q, [], p) for q in self.ctx)

    def points(self, s, p, lim=10**6):
        """list of iteration vectors of statement s (0-based) for params p."""
        st = self.stmts[s]
        box = self.bbox(s, p)
        if box is None:
            return []
        n = 1
        for lo, hi in box:
            n *= hi - lo + 1
        if n > lim:
            raise OverflowError
        if st.d == 0:
            pts = np.zeros((1, 0), dtype=np.int64)
        else:
            gr = np.meshgrid(*[np.arange(lo, hi + 1) for lo, hi in box], indexing="ij")
            pts = np.stack([g.ravel() for g in gr], axis=1)
        mask = np.zeros(len(pts), dtype=bool)
        for q in st.polys:
            mask |= poly_mask(q, pts, p, st.d)
        if st.sch:
            for comp in st.sch:
                if comp[0] < -1:
                    v = comp_raw(comp, pts, p, st.d)
                    mask &= (v % (-comp[0])) == 0
        return [tuple(int(x) for x in r) for r in pts[mask]]

    def date(self, s, it, p):
        st = self.stmts[s]
        out = []
        for comp in st.sch or []:
            v = comp[-1]
            for a, b in zip(comp[1:1 + st.d], it):
                v += a * b
            for a, b in zip(comp[1 + st.d:-1], p):
                v += a * b
            out.append(v // abs(comp[0]))
        return tuple(out)

    def bbox(self, s, p):
        """Bounding box from interval propagation; None if empty."""
        st = self.stmts[s]
        boxes = []
        for q in st.polys:
            b = prop_box(q, st.d, p)
            if b is not None:
                boxes.append(b)
        if not boxes:
            return None
        return [(min(b[k][0] for b in boxes), max(b[k][1] for b in boxes))
                for k in range(st.d)]


BIG = 500


def prop_box(q, d, p, ex=False):
    n = d + len(q.ex)
    off = q.off or [0] * d
    lo = [v - BIG for v in off] + [e[0] for e in q.ex]
    hi = [v + BIG for v in off] + [e[1] for e in q.ex]
    rows = []
    for r in q.rows:
        k = r[-1] + sum(a * b for a, b in zip(r[1 + n:-1], p))
        co = r[1:1 + n]
        rows.append((co, k))
        if r[0] == 0:
            rows.append(([-x for x in co], -k))
    for _ in range(12):
        ch = False
        for co, k in rows:
            # sum co*x + k >= 0
            mx = k
            for a, l, h in zip(co, lo, hi):
                mx += a * h if a > 0 else a * l
            if mx < 0:
                return None
            for j, a in enumerate(co):
                if a > 0:      # a*x >= -(rest max)
                    rest = mx - a * hi[j]
                    nl = -(rest // a)
                    if nl > lo[j]:
                        lo[j] = nl
                        ch = True
                        if lo[j] > hi[j]:
                            return None
                elif a < 0:
                    rest = mx - a * lo[j]
                    nh = rest // (-a)
                    if nh < hi[j]:
                        hi[j] = nh
                        ch = True
                        if lo[j] > hi[j]:
                            return None
        if not ch:
            break
    return [(lo[k], hi[k]) for k in (range(d, n) if ex else range(d))]


def comp_raw(comp, pts, p, d):
    v = np.full(len(pts), comp[-1] + sum(a * b for a, b in zip(comp[1 + d:-1], p)), dtype=np.int64)
    for k in range(d):
        if comp[1 + k]:
            v += comp[1 + k] * pts[:, k]
    return v


def poly_mask(q, pts, p, d):
    ne = len(q.ex)
    if ne == 0:
        m = np.ones(len(pts), dtype=bool)
        for r in q.rows:
            v = comp_raw(r, pts, p, d)
            m &= (v == 0) if r[0] == 0 else (v >= 0)
        return m
    m = np.zeros(len(pts), dtype=bool)
    box = prop_box(q, d, p, ex=True)
    if box is None:
        return m
    for e in itertools.product(*[range(a, b + 1) for a, b in box]):
        t = np.ones(len(pts), dtype=bool)
        for r in q.rows:
            rr = r[:1 + d] + r[1 + d + ne:]
            v = comp_raw(rr, pts, p, d) + sum(a * b for a, b in zip(r[1 + d:1 + d + ne], e))
            t &= (v == 0) if r[0] == 0 else (v >= 0)
        m |= t
    return m


def poly_contains(q, it, p):
    pts = np.array([list(it)], dtype=np.int64).reshape(1, len(it))
    return bool(poly_mask(q, pts, p, len(it))[0])


# ------------------------------------------------------------------ writers
def fmt_row(r):
    return " ".join(str(x) for x in r)


def write_poly(q, d, npar, out, ext=None):
    ne = len(q.ex)
    cols = 2 + d + ne + npar
    if ext is None:
        ext = ne > 0
    if ext:
        out.append("%d %d %d 0 %d %d" % (len(q.rows), cols, d, ne, npar))
    else:
        out.append("%d %d" % (len(q.rows), cols))
    for r in q.rows:
        out.append(fmt_row(r))


def scat_rows(st, npar, nscat):
    rows = []
    for k, comp in enumerate(st.sch):
        dd = comp[0]
        cs = [0] * nscat
        if dd <= 1:
            cs[k] = -abs(dd)
            rows.append([0] + cs + list(comp[1:]))
        else:
            a = list(cs)
            a[k] = -dd
            rows.append([1] + a + list(comp[1:]))
            b = list(cs)
            b[k] = dd
            t = [-x for x in comp[1:]]
            t[-1] += dd - 1
            rows.append([1] + b + t)
    return rows


def to_text(prog, names=True):
    """The .cloog input file of a program."""
    o = [prog.lang, ""]
    if len(prog.ctx) != 1:
        o.append(str(len(prog.ctx)))
    for q in prog.ctx:
        write_poly(q, 0 if q.ex else 0, prog.np, o) if q.ex else None
        if not q.ex:
            o.append("%d %d" % (len(q.rows), 2 + prog.np))
            for r in q.rows:
                o.append(fmt_row(r))
    if prog.pnames:
        o += ["1", " ".join(prog.pnames)]
    else:
        o.append("0")
    o += ["", str(len(prog.stmts)), ""]
    for st in prog.stmts:
        o.append(str(len(st.polys)))
        for q in st.polys:
            write_poly(q, st.d, prog.np, o, ext=any(x.ex for x in st.polys))
        o += ["0 0 0", ""]
    if prog.inames:
        o += ["1", " ".join(prog.inames)]
    else:
        o.append("0")
    if prog.nscat:
        o += ["", str(len(prog.stmts)), ""]
        for st in prog.stmts:
            rows = scat_rows(st, prog.np, prog.nscat)
            o.append("%d %d" % (len(rows), 2 + prog.nscat + st.d + prog.np))
            for r in rows:
                o.append(fmt_row(r))
            o.append("")
        if prog.snames:
            o += ["1", " ".join(prog.snames)]
        else:
            o.append("0")
    else:
        o += ["", "0"]
    return "\n".join(o) + "\n"
