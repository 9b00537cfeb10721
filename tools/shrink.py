#!/usr/bin/env python3
"""shrink.py BINARY REPLAY [same|any]: a smaller program on which the screening
interpreter sees the same kind of failure (a developer's tool)."""
import json, os, random, sys, copy, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
from core import *
import astrun
from multiprocessing import Pool

binary, rep = sys.argv[1:3]
mode = sys.argv[3] if len(sys.argv) > 3 else "same"
J = json.load(open(rep))
OUT = sys.argv[4] if len(sys.argv) > 4 else "/tmp/shrunk.cloog"
TMP = tempfile.mkdtemp()
BADP = tuple(J["params_value"]) if J.get("params_value") else None
CRASH = {"timeout", "crash"}


def test(a):
    pj, opts = a
    try:
        p = prog_from_json(pj)
        c = Case(p, opts, np_=8)
        ps = params_for(c, random.Random(1))[:8]
        if BADP and len(BADP) == p.np and p.in_ctx(BADP):
            ps = [BADP] + ps[:2]
        if not ps:
            return None
        for q in ps:
            for s in range(len(p.stmts)):
                if p.bbox(s, q) is not None and any(b - a_ > 25 for a_, b in p.bbox(s, q)):
                    return None
        j = run_gen(binary, [(0, c.text, opts)], TMP, 2).get(0)
        if j is None or "done" not in j:
            return "timeout" if j and j["sig"] in (9, 14, 24) else "crash"
        f = astrun.compile_ast(j["ast"], pn_of(c, j))
        for q in ps:
            b = astrun.quick_check(p, f, q)
            if b:
                return b
    except (OverflowError, Unsupported, ValueError, IndexError, KeyError, TypeError):
        return None
    return None


from astrun import Unsupported


def cands(pj, opts):
    n = len(pj["stmts"])

    def mod(f):
        x = copy.deepcopy(pj)
        f(x)
        return (x, opts)
    for s in range(n):
        if n > 1:
            yield mod(lambda x: x["stmts"].pop(s))
    for k in range(len(opts)):
        if opts[k].startswith("-") and not opts[k][1:].isdigit():
            w = 2 if k + 1 < len(opts) and opts[k + 1].lstrip("-").isdigit() else 1
            yield (copy.deepcopy(pj), opts[:k] + opts[k + w:])
    for d in range(pj["nscat"]):
        def f(x):
            x["nscat"] -= 1
            for st in x["stmts"]:
                st["sch"].pop(d)
                if not x["nscat"]:
                    st["sch"] = None
        yield mod(f)
    for v in (0, 1, 2, 3):
        for k in range(pj["np"]):
            def f(x):
                def sub(r, first):
                    i = first + k
                    r[-1] += v * r[i]
                    r.pop(i)
                for q in x["ctx"]:
                    for r in q[0]:
                        sub(r, len(r) - 1 - x["np"])
                for st in x["stmts"]:
                    for q in st["polys"]:
                        for r in q[0]:
                            sub(r, len(r) - 1 - x["np"])
                    for comp in st["sch"] or []:
                        sub(comp, len(comp) - 1 - x["np"])
                x["np"] -= 1
            yield mod(f)
    for s in range(n):
        st = pj["stmts"][s]
        for u in range(len(st["polys"])):
            if len(st["polys"]) > 1:
                yield mod(lambda x: x["stmts"][s]["polys"].pop(u))
            for r in range(len(st["polys"][u][0])):
                yield mod(lambda x: x["stmts"][s]["polys"][u][0].pop(r))
            for e in range(len(st["polys"][u][1])):
                def f(x):
                    q = x["stmts"][s]["polys"][u]
                    i = 1 + st["d"] + e
                    q[0][:] = [r for r in q[0] if not r[i]]
                    for r in q[0]:
                        r.pop(i)
                    q[1].pop(e)
                yield mod(f)
        for k in range(st["d"]):
            for v in (0, 1, 2, -1):
                def f(x):
                    t = x["stmts"][s]
                    for q in t["polys"]:
                        for r in q[0]:
                            r[-1] += v * r[1 + k]
                            r.pop(1 + k)
                        q[0][:] = [r for r in q[0] if any(r[1:])]
                    for comp in t["sch"] or []:
                        comp[-1] += v * comp[1 + k]
                        comp.pop(1 + k)
                    t["d"] -= 1
                yield mod(f)
    for q in range(len(pj["ctx"])):
        for r in range(len(pj["ctx"][q][0])):
            yield mod(lambda x: x["ctx"][q][0].pop(r))
    for s in range(n):
        st = pj["stmts"][s]
        for u in range(len(st["polys"])):
            for r in range(len(st["polys"][u][0])):
                for i in range(1, len(st["polys"][u][0][r])):
                    v = st["polys"][u][0][r][i]
                    for w in {0, v // 2 if v > 0 else -(-v // 2), v - 1 if v > 0 else v + 1}:
                        if v and w != v:
                            def f(x):
                                x["stmts"][s]["polys"][u][0][r][i] = w
                            yield mod(f)
        for r in range(len(st["sch"] or [])):
            for i in range(1, len(st["sch"][r])):
                v = st["sch"][r][i]
                for w in {0, v // 2 if v > 0 else -(-v // 2)}:
                    if v and w != v:
                        def f(x):
                            x["stmts"][s]["sch"][r][i] = w
                        yield mod(f)


def main():
    pj, opts = J["prog"], J["options"].split()
    want = test((pj, opts))
    print("starts as", want, flush=True)
    ok = (lambda b: b == want) if mode == "same" else (lambda b: b)
    with Pool(8) as pool:
        again = True
        while again:
            again = False
            cs = list(cands(pj, opts))
            for i in range(0, len(cs), 16):
                hit = [a for a, b in zip(cs[i:], pool.map(test, cs[i:i + 16], 1)) if ok(b)]
                if hit:
                    pj, opts = hit[-1]
                    again = True
                    c = Case(prog_from_json(pj), opts)
                    open(OUT, "w").write("# %s\n%s" % (" ".join(opts), c.text))
                    break
    c = Case(prog_from_json(pj), opts)
    print(want, " ".join(opts))
    print(c.text)
    shutil.rmtree(TMP)


main()
