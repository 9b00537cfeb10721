"""Other ways of writing the same program: comments, blanks, headers, isl
notation, names."""
from model import *

COMMENTS = ["# a comment", "#", "# 3 4", "#1 0 0 0", "   # indented 7", "\t# tab", "# c f 1 2", "", "", "  ", "\t"]
TAILS = ["  # trailing", "   ", "\t# 1 2 3", " # i j k", ""]


def tail(r, k=.25):
    return r.choice(TAILS) if r.random() < k else ""


def noise(r, o, k=.3):
    while r.random() < k:
        o.append(r.choice(COMMENTS))


def row(r, x):
    s = r.choice((" ", "  ", "\t", "   ")) if r.random() < .5 else " "
    return (r.choice(("", "  ", "\t")) if r.random() < .3 else "") + s.join(str(v) for v in x) + tail(r)


def poly(r, q, d, npar, ext):
    o = []
    ne = len(q.ex)
    cols = 2 + d + ne + npar
    noise(r, o)
    if ext or ne:
        o.append("%d %d %d 0 %d %d" % (len(q.rows), cols, d, ne, npar) + tail(r))
    else:
        o.append("%d %d" % (len(q.rows), cols) + tail(r))
    for x in q.rows:
        noise(r, o, .15)
        o.append(row(r, x))
    return o


def union(r, polys, d, npar, ext):
    o = []
    noise(r, o)
    if len(polys) != 1 or r.random() < .5:
        o.append(str(len(polys)) + tail(r))
    e = ext or any(q.ex for q in polys)
    for q in polys:
        o += poly(r, q, d, npar, e)
    return o


def naming(r, names, given):
    o = []
    noise(r, o)
    if given:
        o.append(r.choice(("1", " 1", "1")) + tail(r))
        noise(r, o, .15)
        s = r.choice((" ", "  ", "\t"))
        o.append((r.choice(("", " ", "\t")) if r.random() < .3 else "") + s.join(names) + tail(r))
    else:
        o.append(r.choice(("0", " 0", "0")) + tail(r))
    return o


def polylib(prog, r):
    """a random way of writing prog with constraint matrices"""
    o = []
    noise(r, o)
    o.append((r.choice(("", " ", "\t")) if r.random() < .3 else "") + prog.lang + tail(r))
    ext = r.random() < .3
    # the parameters of the context are its iterators, in extended headers too
    noise(r, o)
    if len(prog.ctx) != 1 or r.random() < .4:
        o.append(str(len(prog.ctx)) + tail(r))
    cext = r.random() < .3
    cform = "%d %d 0 0 0 %d" if r.random() < .5 and len(prog.ctx) == 1 else "%d %d %d 0 0 0"
    for q in prog.ctx:
        if cext:
            o.append(cform %
                     (len(q.rows), 2 + prog.np, prog.np) + tail(r))
        else:
            o.append("%d %d" % (len(q.rows), 2 + prog.np) + tail(r))
        for x in q.rows:
            noise(r, o, .15)
            o.append(row(r, x))
    o += naming(r, prog.pnames, prog.pnames is not None)
    noise(r, o)
    o.append(str(len(prog.stmts)) + tail(r))
    for st in prog.stmts:
        o += union(r, st.polys, st.d, prog.np, ext)
        noise(r, o)
        o.append(r.choice(("0 0 0", " 0  0 0", "0\t0\t0")) + tail(r))
    o += naming(r, prog.inames, prog.inames is not None)
    noise(r, o)
    if prog.nscat:
        o.append(str(len(prog.stmts)) + tail(r))
        sext = r.random() < .3
        for st in prog.stmts:
            rows = scat_rows(st, prog.np, prog.nscat)
            noise(r, o)
            if r.random() < .2:
                o.append("1" + tail(r))
            if sext:
                o.append("%d %d %d %d 0 %d" % (len(rows), 2 + prog.nscat + st.d + prog.np, prog.nscat,
                                               st.d, prog.np) + tail(r))
            else:
                o.append("%d %d" % (len(rows), 2 + prog.nscat + st.d + prog.np) + tail(r))
            for x in rows:
                o.append(row(r, x))
        o += naming(r, prog.snames, prog.snames is not None)
    else:
        o.append("0" + tail(r))
    noise(r, o)
    return "\n".join(o) + ("\n" if r.random() < .8 else "")


# ------------------------------------------------------------- isl notation
def aff(cs, names, k):
    t = []
    for c, n in zip(cs, names):
        if c:
            t.append("%d*%s" % (c, n) if c != 1 else n)
    if k or not t:
        t.append(str(k))
    return " + ".join(t).replace("+ -", "- ")


def isl_conj(rows, names, r):
    cs = []
    for x in rows:
        a = aff(x[1:-1], names, x[-1])
        if x[0] == 0:
            cs.append(a + " = 0")
        elif r.random() < .7:
            cs.append(a + " >= 0")
        else:
            cs.append("0 <= " + a)
    return " and ".join(cs) or "true"


def isl_set(polys, d, pn, r, dims=None, params=True):
    dims = dims or ["i%d" % k for k in range(d)]
    ds = []
    for q in polys:
        ex = ["e%d" % k for k in range(len(q.ex))]
        c = isl_conj(q.rows, dims + ex + pn, r)
        if ex:
            c = "exists (%s : %s)" % (", ".join(ex), c)
        ds.append(c)
    body = " or ".join("(%s)" % c for c in ds) or "false"
    return "%s{ [%s] : %s }" % ("[%s] -> " % ", ".join(pn) if pn and params else "", ", ".join(dims), body)


def isl_ctx(polys, pn, r):
    body = " or ".join("(%s)" % isl_conj(q.rows, pn, r) for q in polys)
    return "%s{ : %s }" % ("[%s] -> " % ", ".join(pn) if pn else "", body)


def isl_map(st, pn, nscat, r, name=""):
    it = ["i%d" % k for k in range(st.d)]
    outs, extra = [], []
    for k, c in enumerate(st.sch):
        a = aff(c[1:-1], it + pn, c[-1])
        if c[0] in (1, -1):
            outs.append(a)
        elif c[0] > 1:
            outs.append("floor((%s)/%d)" % (a, c[0]))
        else:
            outs.append("c%d" % k)
            extra.append("%d*c%d = %s" % (-c[0], k, a))
    return "%s{ %s[%s] -> [%s]%s }" % ("[%s] -> " % ", ".join(pn) if pn else "", name, ", ".join(it),
                                      ", ".join(outs), " : " + " and ".join(extra) if extra else "")


def isl_file(prog, r):
    """the whole file with sets and maps in isl's notation"""
    pn = prog.pnames or ["M", "N", "O", "P"][:prog.np]
    o = [prog.lang, isl_ctx(prog.ctx, pn, r)]
    o += naming(r, prog.pnames, prog.pnames is not None)
    o.append(str(len(prog.stmts)))
    for st in prog.stmts:
        o += [isl_set(st.polys, st.d, pn, r), "0 0 0"]
    o += naming(r, prog.inames, prog.inames is not None)
    if prog.nscat:
        o.append(str(len(prog.stmts)))
        o += [isl_map(st, pn, prog.nscat, r) for st in prog.stmts]
        o += naming(r, prog.snames, prog.snames is not None)
    else:
        o.append("0")
    return "\n".join(o) + "\n"


PN = [["n", "m"], ["NN", "P_2"], ["parameter_with_a_long_name_of_more_than_fifty_characters_1", "q"], ["T", "S"],
      ["x1", "x2"], ["N", "M"]]
IN = [["ii", "jj", "kk", "ll"], ["x", "y", "z", "w"], ["i1", "i2", "i3", "i4"], ["j", "i", "l", "k"],
      ["an_iterator_whose_name_is_longer_than_fifty_characters_a", "b", "d", "e"]]
SN = [["t%d" % k for k in range(12)], ["p%d" % k for k in range(1, 13)],
      ["u", "v", "r", "g", "h", "aa", "bb", "cc", "dd", "ee", "ff", "gg"]]


def add_names(prog, r, p=.6):
    md = max([s.d for s in prog.stmts] or [0])
    if prog.np and r.random() < p:
        prog.pnames = r.choice(PN)[:prog.np]
    if md and r.random() < p:
        prog.inames = r.choice(IN)[:md]
    if prog.nscat and r.random() < p:
        prog.snames = r.choice(SN)[:prog.nscat]
    used = (prog.pnames or ["M", "N"][:prog.np]) + (prog.inames or list("ijkl")[:md]) + \
        (prog.snames or ["c%d" % k for k in range(1, prog.nscat + 1)])
    if len({u.lower() for u in used}) != len(used):
        prog.pnames = prog.inames = prog.snames = None
    return prog
