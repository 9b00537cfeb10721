"""C17: the loops clast_filter finds; C18: the printed code of annotated loops."""
from core import *
import gen as G
import notation as NT
from printed import run_printed
from scan import corpus
from reader import SCH


def prog(r, k, lang="c", sched=False, lattice=0):
    p = G.gen_lattice(r, sched) if r.random() < lattice else G.gen_program(
        r, sched=sched, depth=r.choice((1, 2, 2, 3)), nst=r.choice((1, 2, 3, 4, 5)),
        prof={"mod": .3, "union": 0, "window": False} if r.random() < .3 else {"mod": 0, "union": .25})
    p.lang = lang
    o = G.gen_options(r, 0, 3)
    if "-strides" not in o and r.random() < .3:
        o += ["-strides", "1"]
    return Case(p, o, tag="annot")


def events(txt):
    """the lines of a printed C program, reduced to what they are"""
    out = []
    for l in txt.splitlines():
        l = l.strip()
        if not l:
            continue
        m = re.match(r"IF_TIME\((\w+)_start = cloog_util_rtclock\(\)\);$", l)
        if m:
            out.append("start " + m.group(1))
            continue
        m = re.match(r"IF_TIME\((\w+) \+= cloog_util_rtclock\(\) - (\w+)_start\);$", l)
        if m and m.group(1) == m.group(2):
            out.append("stop " + m.group(1))
            continue
        if l.startswith("#"):
            out.append(" ".join(l[1:].split()))
            continue
        m = re.match(r"for \((\w+)=(.*);(\w+)<=(.*);(\w+)(\+\+|\+=\d+)\) \{$", l)
        if m and m.group(1) == m.group(3) == m.group(5):
            b = [x if re.match(r"[lu]b[pv]$", x) else "own" for x in (m.group(2), m.group(4))]
            st = m.group(6)
            out.append("for %s %s %s %s" % (m.group(1), "1" if st == "++" else st[2:], b[0], b[1]))
            continue
        if re.match(r"if \(.*\) \{$", l):
            out.append("if")
        elif l == "}":
            out.append("end")
        elif l == "{":
            out.append("{")
        elif l == "polyrt_loop_dist(_lb_dist, _ub_dist, nprocs, my_rank, &lbp, &ubp);":
            out.append("dist")
        else:
            m = re.match(r"([lu]b[pv]|_[lu]b_dist)=[^=].*;$", l)
            n = re.match(r"([A-Za-z_]\w*) = .*;$", l)
            s = re.match(r"S(\d+)\(.*\);$", l)
            out.append("set " + m.group(1) if m else "ass " + n.group(1) if n else
                       "stmt " + s.group(1) if s else "? " + l)
    return out


def _run(a):
    binary, tmp, cs, toks = a
    return gen_retry(binary, [(i, c.text, c.opts + toks[i]) for i, c in enumerate(cs)], tmp)


def generate(chk, cs, tok):
    """[(case, tokens, reply)]"""
    b = chk.build() + "/gen"
    cs = [c for c in {c.key: c for c in cs}.values() if c.key not in chk.slow]
    size = len(cs) // 24 + 1
    jobs = []
    for i in range(0, len(cs), size):
        part = cs[i:i + size]
        jobs.append((b, chk.tmp, part, [tok(c, random.Random(c.key)) for c in part]))
    out = []
    for (_, _, part, toks), res in zip(jobs, pmap(_run, jobs)):
        for i, c in enumerate(part):
            j = res.get(i) or {"exit": -1, "sig": -1}
            chk.add("programs")
            if "done" not in j:
                if j["sig"] in (9, 14, 24) and not chk.curated:
                    chk.add("out_of_time")
                    continue
                chk.violation(c.key, "crash", replay_of(c, None, "exit %d signal %d %s" % (
                    j["exit"], j["sig"], " ".join(toks[i]))))
                continue
            out.append((c, toks[i], j))
    return out


# ----------------------------------------------------------------- C17
def questions(c, r):
    p = c.prog
    its = (p.snames or ["c%d" % i for i in range(1, 6)]) if p.nscat else []
    its += p.inames or (list("ijkl") if not p.nscat else [])
    # (names that only begin like one in use, or only differ in case, are other names)
    its = ["*"] + its + [x for v in its for x in (v[:-1], v + "1", v.upper()) if x and r.random() < .2]
    out = []
    for _ in range(12):
        n = len(p.stmts)
        st = r.sample(range(1, n + 1), r.choice((n, r.randint(1, n))))
        if r.random() < .1:
            st = r.choice(([], [n + 1], st + [n + 3]))
        r.shuffle(st)
        st = "*" if r.random() < .15 else ",".join(map(str, st))
        out.append("@filter=%s:%s:%s" % (r.choice(its) if r.random() < .5 else "*", r.choice("es"), st))
    return out


def named(r, c):
    """with names of which one is the beginning of another"""
    p = c.prog
    if r.random() < .5:
        return c
    pool = ["i", "ii", "i1", "i12", "t", "tt", "t1", "c", "c1", "c12", "x", "x_", "c10", "I"]
    r.shuffle(pool)
    p.inames = pool[:max(s.d for s in p.stmts)]
    p.snames = pool[7:7 + p.nscat] or None
    return Case(p, c.opts, tag=c.tag, text=NT.polylib(p, r))


def c17(chk):
    q = 1 if chk.quick else 6
    cs = corpus(chk, "filter", 900 * q, lambda r, k: named(r, prog(r, k, lattice=.15))) + \
        corpus(chk, "filter-s", 900 * q, lambda r, k: named(r, prog(r, k, "c", r.choice(SCH))), fixed=True)
    tl, src = [], {}
    for n, (c, toks, j) in enumerate(generate(chk, cs, questions)):
        nodes, entry = astrun.flatten(j["ast"])
        qs = []
        for t, a in zip(toks, j["filters"]):
            it, ty, st = t[8:].split(":")
            qs.append({"it": "" if it == "*" else it, "ty": ty, "any": st == "*",
                       "st": [] if st == "*" else [int(x) for x in st.split(",") if x],
                       "loops": a["loops"], "stmts": a["stmts"]})
        slim = [{k: x[k] for k in ("k", "nx", "b", "v", "s", "id") if k in x} for x in nodes]
        chk.add("questions", len(qs))
        chk.add("loops", sum(x["k"] == "for" for x in nodes))
        tl.append({"id": n, "nodes": slim, "entry": entry, "qs": qs, "ps": qs})
        src[n] = (c, j, toks)
    verd, st = tlc_batch(chk, "LoopFilter", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for n, vs in verd.items():
        c, j, toks = src[n]
        for p, v, d in vs:
            if v == "ok":
                chk.add("traces_validated_against_impl")
            else:
                k = int(re.sub(r"\D", "", str(p))) - 1
                rep = replay_of(c, j, "question %s answer %s" % (toks[k], j["filters"][k]))
                rep["question"], rep["answer"] = toks[k], j["filters"][k]
                chk.violation(c.key, v, rep)
    for c in cs[:2]:
        chk.sample({"input": c.text, "options": " ".join(c.opts)})


# ----------------------------------------------------------------- C18
def c18(chk):
    q = 1 if chk.quick else 6
    cs = corpus(chk, "annot", 600 * q, prog) + \
        corpus(chk, "annot-s", 500 * q, lambda r, k: prog(r, k, "c", r.choice(SCH)), fixed=True) + \
        corpus(chk, "annot-f", 120 * q, lambda r, k: prog(r, k, "f"))
    tl, src, run = [], {}, {"given": [], "given_f": []}
    for n, (c, toks, j) in enumerate(generate(chk, cs, lambda c, r: ["@text", "@annot=%d" % r.randrange(10**6)])):
        c.printed = j["text"]
        if c.prog.lang == "f":
            run["given_f"].append(c)
            continue
        if re.search(r"%\d+ [<>]=", j["text"]):     # (see the finding about remainders)
            chk.add("not_run")
        else:
            run["given"].append(c)
        nodes, entry = astrun.flatten(j["ast"])
        keep = ("k", "nx", "b", "v", "s", "st", "par", "pv", "rd", "tv", "ud")
        chk.add("annotated_loops", sum(x["k"] == "for" and x["par"] > 0 for x in nodes))
        tl.append({"id": n, "nodes": [{k: x[k] for k in keep if k in x} for x in nodes], "entry": entry,
                   "ev": events(j["text"]), "ps": [[]]})
        src[n] = (c, j, toks)
    verd, st = tlc_batch(chk, "Annot", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for n, vs in verd.items():
        c, j, toks = src[n]
        for p, v, d in vs:
            if v == "ok":
                chk.add("texts_validated")
            else:
                rep = replay_of(c, j, "line %s of the text; %s" % (d, " ".join(toks)))
                rep["printed"] = j["text"]
                chk.violation(c.key, v, rep)
    for mode, l in run.items():
        run_printed(chk, None, l, mode)


CHECKS = {"C17": c17, "C18": c18}
