"""Renders the documents Reader.tla enumerates as text."""
from model import *

NAMES = {"p": ["M", "N"], "i": ["i", "j"], "s": ["u", "v"]}
LONG = "a_name_which_is_longer_than_fifty_characters_and_therefore_unusual_"


def program(doc):
    """the program a document describes (fault free reading)"""
    np_ = next((x["b"] for x in doc if x["k"] == "ctx"), 0)
    doms = [x for x in doc if x["k"] == "dom"]
    scats = [x for x in doc if x["k"] == "scat"]
    lang = next((x["a"] for x in doc if x["k"] == "lang"), "c")
    ns = scats[0]["b"] if scats else 0
    stmts = []
    for s, x in enumerate(doms):
        d = x["a"]
        rows = []
        for k in range(d):
            rows.append([1] + [int(j == k) for j in range(d)] + [0] * np_ + [s])
            hi = [1] + [-int(j == k) for j in range(d)] + [0] * np_ + [3]
            if np_:
                hi[1 + d + (k + s) % np_] = 1
                hi[-1] = 1
            rows.append(hi)
        if not rows:
            rows.append([1] + [int(j == 0) for j in range(np_)] + [4])
        sch = None
        if s < len(scats):
            sch = []
            for t in range(ns):
                c = [1] + [int(j == t or (t == 0 and s and j == 1)) for j in range(d)] + [0] * np_ + [s if d else 2]
                sch.append(c)
        stmts.append(Stmt(d, [Poly(rows)], sch))
    ctx = [Poly([[1] + [int(j == k) for j in range(np_)] + [2] for k in range(np_)])]
    return Program(np_, ctx, stmts, ns, lang)


def matrix(o, rows, cols, f, dims=None, hdr=None):
    rows = [list(r) for r in rows]
    n = len(rows)
    if f == "norows":
        n, rows = 0, []
    elif f == "morerows":
        n += 1
    elif f == "kind" and rows:
        rows[0][0] = 7
    elif f == "word":
        if not rows:
            rows, n = [[0] * cols], 1
        rows[-1][-1] = "x?"
    if f == "junk":
        o.append("abc def")
    elif f == "header":
        o.append(hdr)
    else:
        o.append("%d %d" % (n, cols))
    for r in rows:
        o.append(" ".join(map(str, r)))


def render(item):
    """(text, program, {names given}) of one line of Reader's output"""
    doc = item["doc"]
    p = program(doc)
    o, si, ci, opts = [], 0, 0, 0
    which = "p"
    given = {}
    for x in doc:
        k, f, a, b = x["k"], x["f"], x["a"], x["b"]
        if k == "eof":
            break
        if k == "lang":
            o.append(("c-language" if a == "c" else "fortran") if f == "word" else a)
        elif k == "ctx":
            if f == "fewcols":
                o += ["1 1", "1"]
            else:
                matrix(o, p.ctx[0].rows, 2 + b, f, hdr="%d %d %d 0 3 %d" % (b, 2 + b, b, b))
        elif k == "opt":
            o.append({"junk": "yes", "negative": "-1"}.get(f, str(a)))
        elif k == "names":
            nm = NAMES[which][:a]
            if f == "few":
                nm = nm[:-1]
            elif f == "more":
                o.append(" ".join(nm + ["extra"]))
            elif f == "long":
                nm = [LONG + y for y in nm]
            elif f == "hash":
                nm = nm[:-1] + ["#", nm[-1]]
            if f == "none":
                o.append("")
            elif f != "more":
                o.append(" ".join(nm))
            given[which] = nm
        elif k == "nst":
            which = "i"
            o.append({"junk": "two", "negative": "-2", "more": str(a + 1), "less": str(a - 1)}.get(f, str(a)))
        elif k == "dom":
            if f == "fewcols":
                o += ["1 1", "1"]
            else:
                matrix(o, p.stmts[si].polys[0].rows, 2 + a + b, f,
                       hdr="%d %d %d 0 2 %d" % (len(p.stmts[si].polys[0].rows), 2 + a + b, a, b))
            si += 1
        elif k == "zero":
            o += [{"junk": "none", "few": "0 0"}.get(f, "0 0 0"), ""]
        elif k == "scnt":
            which = "s"
            o.append({"junk": "all", "more": str(a + 1), "less": str(a - 1)}.get(f, str(a)))
        elif k == "scat":
            st = p.stmts[ci]
            rows = scat_rows(st, p.np, p.nscat)
            cols = 2 + p.nscat + st.d + p.np
            if f == "fewcols":
                c = 2 + st.d + p.np - 1
                o.append("1 %d" % c)
                o.append(" ".join(["0"] * c))
            elif f == "otherdim":
                matrix(o, [r[:1] + [0] + r[1:] for r in rows] + [[0, -1] + [0] * (cols - 1)], cols + 1, "ok")
            else:
                matrix(o, rows, cols, f, hdr="%d %d %d %d 1 %d" % (len(rows), cols, p.nscat, st.d, p.np))
            ci += 1
    p.pnames, p.inames, p.snames = given.get("p"), given.get("i"), given.get("s")
    return "\n".join(o) + ("\n" if o else ""), p


def tlc_docs(txt):
    import json
    out = []
    for l in txt.splitlines():
        if l.startswith('"DOC '):
            out.append(json.loads(json.loads(l)[4:]))
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out
