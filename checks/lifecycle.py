"""C14: histories of library calls of Lifecycle, replayed into the library
built with the sanitizers and validated by LifeTrace."""
from core import *
import gen as G
import notation as NT
from reader import SCH


DIRECT = ("balanced", "options")         # results the specification itself knows


def files(r):
    """four input files; odd ones say Fortran, the last two have three
    scattering dimensions"""
    out = []
    for k in range(4):
        while True:
            p = G.gen_program(r, sched=r.choice(SCH) if k >= 2 else False, depth=r.choice((1, 2, 2, 3)),
                              nst=r.choice((1, 2, 2, 3)), prof={"union": .3})
            if p.nscat == (0, 0, 3, 3)[k]:
                break
        NT.add_names(p, r)
        if r.random() < .3:
            t = NT.isl_file(p, r)
        else:
            t = NT.polylib(p, r)
        t = re.sub(r"^([^\S\n]*)[cf]\b", r"\1" + "cf"[k % 2], t, count=1, flags=re.M)
        out.append(t)
    return out


CTX = ("N >= 1", "")
DOMS = {2: ("i", "0 <= i <= N"), 3: ("i,j", "0 <= i <= N and 0 <= j <= i"), 4: ("i", "0 <= i <= 2 or 5 <= i <= N"),
        5: ("i,j", "0 <= i <= 3 and i <= j <= i + N")}
KIND = {"pn": "p", "it": "i", "sc": "s"}


def domain(h, s, k):
    if k < 2:
        return "dstr %d %d [N] -> { [] : %s }" % (h, s, CTX[k] or "1 = 1")
    return "dstr %d %d [N] -> { [%s] : %s }" % (h, s, DOMS[k][0], DOMS[k][1])


def add(u, h, nm, us, sc, k, s):
    t = ""
    if sc:
        t = "tstr 0 %d [N] -> { [%s] -> [a,b] : a = %s and b = %s }\n" % ((s, DOMS[k][0]) +
                                                                             (("0", "i") if sc == 1 else ("i", "1")))
    return t + "add %d %s %d %d %d" % (u, ("-", "foo", "Sx")[nm], h, 0 if sc else -1, us)


def rename(u, k, j, v):
    return "name %d %s %d %s%d_%d" % (u, KIND[k], j, {"pn": "par", "it": "it", "sc": "sc"}[k], j, v)


def unflat(f):
    """the pieces of Flat"""
    k, f = f[1], list(f[2:])
    ns = []
    for _ in range(3):
        m = f.pop(0)
        ns.append(f[:m])
        f = f[m:]
    return k, ns, [f[i:i + 4] for i in range(0, len(f), 4)]


def line(e, fs):
    c, x = e["c"], e["x"]
    if c == "dnew":
        return domain(*x)
    if c == "unew":
        return "ud %d 1" % x[0]
    if c == "uadd":
        return add(*x)
    if c == "names":
        return "\n".join(rename(x[0], x[1], j, x[3]) for j in range(x[2]))
    if c == "rename":
        return rename(*x)
    if c == "iread":
        return "itext %d %d %s" % (x[0], x[1], fs[x[2]].replace("\n", "\\n"))
    if c == "sfree":
        return "count %d\nsfree %d" % (x[0], x[0])
    return " ".join([c] + [str(v) for v in x])


def cfg(o, c):
    return "".join("opt %d %s %d\n" % (o, k, c[k]) for k in sorted(c))


def fresh(lab, fs):
    """a script of its own for a label"""
    def read(f):
        t = "state 0\noptions 0 0\noptions 1 0\n"
        if len(f) == 1:
            return t + line({"c": "iread", "x": [0, 0, f[0]]}, fs) + "\n"
        k, ns, sts = unflat(f)
        l = [domain(0, 0, k), "ud 0 1"]
        for j, (d, nm, us, sc) in enumerate(sts):
            l += [domain(j + 1, 0, d), add(0, j + 1, nm, us, sc, d, 0)]
        l += [rename(0, kd, j, v) for kd, n in zip(("pn", "it", "sc"), ns) for j, v in enumerate(n)]
        return t + "\n".join(l + ["input 0 0 0"]) + "\n"

    def tree(l):
        if l[0] == "gen":
            return read(l[1]) + cfg(0, l[2]) + "gen 0 0 0\n"
        return prog(l) + cfg(1, l[4]) + "pclast 0 0 1\n"

    def prog(l):
        return read(l[1]) + cfg(0, l[2]) + "iprog 0 0 0\n" + cfg(1, l[3]) + "pgen 0 1\n"
    if lab[0] == "dump":
        return read(lab[1]) + "opt 1 language %d\nidump 0 1\n" % lab[2]
    if lab[0] == "ast":
        return tree(lab[1]) + "ast 0\n"
    if lab[0] == "text":
        return tree(lab[1]) + "options 2 0\n" + cfg(2, lab[2]) + "text 0 2\n"
    if lab[0] == "ptext":
        return prog(lab[1]) + "options 2 0\n" + cfg(2, lab[2]) + "ptext 0 2\n"
    raise ToolError("label %r" % lab)


def digest(v):
    if isinstance(v, str):              # (the header says how long it took)
        v = re.sub(r"^(/\*|!) Generated .*\n", "", v)
    return int(hashlib.sha1(json.dumps(v).encode()).hexdigest()[:7], 16)


def _run(a):
    """histories of one chunk on the sanitized library, their labels in
    processes of their own on the plain one"""
    san, plain, tmp, hs = a
    out = []
    r1 = gen_retry(san, [(i, "\n".join(line(e, fs) for e in h) + "\n", ["again"]) for i, (h, fs) in enumerate(hs)],
                   tmp, 30)
    jobs, where = [], {}
    for i, (h, fs) in enumerate(hs):
        for e in h:
            if e["lab"] and e["lab"][0] not in DIRECT:
                k = (i, json.dumps(e["lab"]))
                if k not in where:
                    where[k] = len(jobs)
                    jobs.append((len(jobs), fresh(e["lab"], fs), []))
    r2 = gen_retry(plain, jobs, tmp)
    for i, (h, fs) in enumerate(hs):
        j = r1.get(i) or {"exit": -1, "sig": -1}
        if "done" not in j:
            out.append((None, (j["exit"], j["sig"])))
            continue
        steps, k = [], 0
        for e in h:
            s = {"c": e["c"], "x": e["x"], "out": 0}
            if e["lab"]:
                v = j["out"][k]
                k += 1
                s["out"] = v if e["lab"][0] in DIRECT else digest(v)
            steps.append(s)
        ref, lost = [], 0
        for e in h:
            if e["lab"] and e["lab"][0] not in DIRECT:
                q = r2.get(where[i, json.dumps(e["lab"])]) or {}
                if "done" not in q:
                    lost = 1
                elif e["lab"] not in [x["lab"] for x in ref]:
                    ref.append({"lab": e["lab"], "out": digest(q["out"][0])})
        if lost or k != len(j["out"]):
            out.append((None, "reference" if lost else "outputs"))
            continue
        again = [[digest(v) for v in j[k]] for k in ("out2", "out3")] == [[digest(v) for v in j["out"]]] * 2
        out.append(({"steps": steps, "ref": ref, "leak": j["leak"] if again else -1, "ps": [[]]}, None))
    return out


def c14(chk):
    san = chk.build(san=True, progs=("api",)) + "/api"
    plain = chk.build(progs=("api",)) + "/api"
    n = 250 if chk.quick else 4000
    rc, txt = java_tlc("LifeGen.tla", "LifeGen.cfg", {}, chk.tmp, workers=1,
                       extra=["-simulate", "num=%d" % n, "-depth", "150", "-seed", str(chk.seed)])
    m = re.search(r"number of states generated: ([\d,]+)", txt)
    hs = sorted({l for l in txt.splitlines() if l.startswith('"HIST ')})
    hs = [json.loads(json.loads(l)[5:]) for l in hs]
    if rc or len(hs) < n * .9 or not m:
        raise ToolError("LifeGen.tla: " + txt[-1500:])
    chk.add("transitions", int(m.group(1).replace(",", "")))
    r = chk.rng("files")
    hs = [(h, files(r)) for h in hs]
    size = max(1, n // 40)
    parts = [hs[i:i + size] for i in range(0, len(hs), size)]
    tl, src = [], {}
    for k, res in enumerate(pmap(_run, [(san, plain, chk.tmp, p) for p in parts])):
        for i, (c, bad) in enumerate(res):
            h, fs = parts[k][i]
            t = "\n".join(line(e, fs) for e in h) + "\n"
            key = key_of(t, [])
            rep = {"script": t, "how": "harness/api.c, built with -fsanitize=address,undefined, runs the script"}
            if c is None:
                if bad == "reference" or (bad[1] in (9, 14, 24) and not chk.curated):
                    chk.add("left_out")
                    continue
                if bad == "outputs":
                    raise ToolError("outputs do not fit the script")
                chk.violation(key, "crash", dict(rep, note="exit %d signal %d" % bad))
                continue
            c["id"] = k * 1000 + i
            tl.append(c)
            src[c["id"]] = (key, rep)
            chk.add("calls", len(h))
    verd, st = tlc_batch(chk, "LifeTrace", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for cid, vs in verd.items():
        chk.add("traces_validated_against_impl")
        for p, v, d in vs:
            if v != "ok":
                key, rep = src[cid]
                chk.violation(key, v, dict(rep, note="call %s: %s" % (p.strip("<>"), d)))
    chk.sample({"history": [e["c"] for e in hs[0][0]]})


CHECKS = {"C14": c14}
