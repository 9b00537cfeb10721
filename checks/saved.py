"""C15: the domains saved in the tree."""
from core import *
import gen as G
from scan import corpus
from reader import SCH

OPTS = ([], [], ["-sh", "1"], ["-f", "2"], ["-f", "-1"], ["-otl", "0"], ["-esp", "0"], ["-strides", "1"],
        ["-fsp", "2"], ["-l", "1"], ["-block", "1"])


def kept(p, opts):
    """the scattering dimensions a saved domain speaks about"""
    if "-noscalars" in opts:
        return list(range(1, p.nscat + 1))
    return [d + 1 for d in range(p.nscat) if any(any(x.sch[d][1:-1]) for x in p.stmts)]


def case(r, k):
    p = G.gen_program(r, sched=r.choice(SCH), depth=r.choice((1, 2, 2, 3)),
                      prof={"union": .3, "mod": .1 if r.random() < .3 else 0})
    if any(q.ex for s in p.stmts for q in s.polys):
        for s in p.stmts:
            s.polys = s.polys[:1]           # (see C04)
    o = list(r.choice(OPTS))
    if o[:1] == ["-l"]:
        o = ["-l", str(p.nscat + 1)]
    if r.random() < .5:
        o.append("-noscalars")
    c = Case(p, o, tag="saved", pr=(-2, 4))
    ps, vol = [], 0
    for q in params_for(c, r):
        v = small_enough(p, [q])
        if v <= 3000 and vol + v <= 6000 and len(ps) < 3:
            ps.append(q)
            vol += v
    c.ps = ps
    return c


def _run(a):
    binary, tmp, cs = a
    return gen_retry(binary, [(i, c.text, c.opts + ["@savedom=%d:%s" % (
        c.prog.np, ",".join(str(v) for p in c.ps for v in p) or "0")]) for i, c in enumerate(cs)], tmp)


def c15(chk):
    b = chk.build() + "/gen"
    cs = corpus(chk, "saved", 1500 if chk.quick else 12000, case, fixed=True)
    cs = [c for c in {c.key: c for c in cs}.values() if c.ps and c.key not in chk.slow]
    size = len(cs) // 24 + 1
    parts = [cs[i:i + size] for i in range(0, len(cs), size)]
    tl, src = [], {}
    for k, res in enumerate(pmap(_run, [(b, chk.tmp, p) for p in parts])):
        for i, c in enumerate(parts[k]):
            j = res.get(i) or {"exit": -1, "sig": -1}
            chk.add("programs")
            if "done" not in j:
                if j["sig"] in (9, 14, 24) and not chk.curated:
                    chk.add("out_of_time")
                    continue
                chk.violation(c.key, "crash", replay_of(c, None, "exit %d signal %d" % (j["exit"], j["sig"])))
                continue
            cid = k * 1000 + i
            try:
                t = tlc_case(c.prog, cid, j["ast"], j["params"], c.ps)
            except Unsupported as e:
                chk.violation(c.key, "malformed", replay_of(c, j, str(e)))
                continue
            t["keep"] = kept(c.prog, c.opts)
            t["exact"] = False
            tl.append(t)
            src[cid] = (c, j)
    verd, st = tlc_batch(chk, "SavedDom", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for cid, vs in verd.items():
        c, j = src[cid]
        for p, v, d in vs:
            if v == "ok":
                chk.add("traces_validated_against_impl")
            elif v == "saved":
                chk.violation(c.key, v, replay_of(c, j, "parameters %s: %s" % (p, d)))
            else:                           # the code itself is wrong: C02 and C03 say so
                chk.add("not_judged")
    for c in cs[:2]:
        chk.sample({"input": c.text, "options": " ".join(c.opts)})


CHECKS = {"C15": c15}
