"""C16: histories of operations on domains, replayed into the library and
validated by DomOps."""
from core import *
from library import mat


class Hist:
    def __init__(self, r, exact, np_, lim):
        self.r, self.exact, self.np = r, exact, np_
        self.lo, self.hi = (-3, 3) if lim == 3 else (-4, 4)
        self.maxd = lim
        self.pv = [[]] if not np_ else [[v] for v in r.sample((-2, -1, 0, 1, 3), 2)]
        self.lines = ["state 0"]
        self.live = {}                  # handle -> dimension
        self.steps = []
        self.nobs = []                  # what each output of the script is

    def fresh(self):
        return self.r.choice([h for h in range(1, 9) if h not in self.live])

    def observe(self, *hs):
        for h in dict.fromkeys(hs):
            for k, p in enumerate(self.pv):
                self.lines.append("dpoints %d %d %s %d %d" % (h, self.np, " ".join(map(str, p)), self.lo, self.hi))
                self.nobs.append(("pts", len(self.steps) - 1, h, k))

    def step(self, op, a, line=None, b=0, e=0, n=0, obs=(), ask=False, **kw):
        self.steps.append(dict(op=op, a=a, b=b, e=e, n=n, obs=[], q=0, rows=[], hs=[], **kw))
        if line:
            self.lines.append(line)
        if ask:
            self.nobs.append(("q", len(self.steps) - 1))
        self.observe(*obs)

    # -------------------------------------------------------------- calls
    def poly(self, d):
        r = self.r
        rows = []
        lo, hi = self.lo + 1, self.hi - 1
        for k in range(d):
            u = [0] * (d + self.np + 2)
            v = list(u)
            u[0] = v[0] = 1
            u[1 + k], v[1 + k] = 1, -1
            a, b = sorted((r.randint(lo, hi), r.randint(lo, hi)))
            if r.random() < .15:
                a, b = b, a             # maybe empty
            u[-1], v[-1] = -a, b
            rows += [u, v]
        extra = []
        for _ in range(0 if self.exact else r.choice((0, 1, 1, 2))):
            c = [r.choice((1, 1, 1, 0))] + [r.randint(-2, 2) for _ in range(d)] + \
                [r.randint(-1, 1) for _ in range(self.np)] + [r.randint(-3, 5)]
            extra.append(c)
        if self.np and r.random() < .6 and d:
            c = [1] + [0] * d + [0] * self.np + [r.randint(-1, 3)]
            c[1 + r.randrange(d)] = r.choice((1, -1))
            c[1 + d] = r.choice((1, -1))
            extra.append(c)
        return rows + extra

    def base(self):
        r = self.r
        h = self.fresh()
        d = r.choice([1, 2, 2, self.maxd])
        k = r.random()
        if self.np == 0 and k < .2:
            a, b = r.randint(self.lo + 1, self.hi - 1), r.randint(self.lo + 1, self.hi - 1)
            a, b = (a, b) if r.random() < .15 else (min(a, b), max(a, b))
            rows = []
            for j in range(d):
                u = [1] + [0] * (d + 1)
                v = list(u)
                u[1 + j], v[1 + j] = 1, -1
                u[-1], v[-1] = -a, b
                rows += [u, v]
            line = "dcube %d 0 %d %d %d" % (h, d, a, b)
        elif self.np == 0 and k < .4:
            bs = []
            rows = []
            for j in range(d):
                a, b = sorted((r.randint(self.lo + 1, self.hi - 1), r.randint(self.lo + 1, self.hi - 1)))
                bs += [a, b]
                u = [1] + [0] * (d + 1)
                v = list(u)
                u[1 + j], v[1 + j] = 1, -1
                u[-1], v[-1] = -a, b
                rows += [u, v]
            line = "dbounds %d 0 %d %s" % (h, d, " ".join(map(str, bs)))
        elif self.np == 0 and k < .45:
            rows = []
            line = "duniv %d 0 %d" % (h, d)
        elif k < .55:
            rows = []                   # boxes without some of their sides
            for j in range(d):
                u = [0] * (d + self.np + 2)
                v = list(u)
                u[0] = v[0] = 1
                u[1 + j], v[1 + j] = 1, -1
                a, b = sorted((r.randint(self.lo + 1, self.hi - 1), r.randint(self.lo + 1, self.hi - 1)))
                u[-1], v[-1] = -a, b
                rows += [x for x in (u, v) if r.random() < .6]
            line = "dmat %d 0 %d %s" % (h, self.np, mat(rows, 2 + d + self.np))
        else:
            rows = self.poly(d)
            line = "dmat %d 0 %d %s" % (h, self.np, mat(rows, 2 + d + self.np))
        self.live[h] = d
        self.step("base", h, line, n=d, obs=(h,))
        self.steps[-1]["rows"] = [rows]

    def pick(self, d=None):
        c = [h for h in self.live if d is None or self.live[h] == d]
        return self.r.choice(c)

    def move(self):
        r = self.r
        room = len(self.live) < 7
        ops = ["copy", "free", "empty", "union", "inter", "inter", "diff", "diff", "project", "extend", "convex",
               "simple", "simplify", "simpu", "cut", "scatter", "split"] if room else ["free", "union", "simpu"]
        op = r.choice(ops)
        b = self.pick()
        d = self.live[b]
        h = self.fresh() if room else None
        if op == "copy":
            self.live[h] = d
            return self.step("copy", h, "dcopy %d %d" % (h, b), b=b, obs=(h, b))
        if op == "free":
            if len(self.live) < 2:
                return
            del self.live[b]
            return self.step("free", b, "dfree %d" % b, obs=tuple(self.live)[:2])
        if op == "empty":
            self.live[h] = d
            return self.step("empty", h, "dempty %d %d" % (h, b), b=b, obs=(h, b))
        if op in ("union", "inter", "diff", "simplify"):
            e = self.pick(d)
            if e == b and (op == "union" or r.random() < .7):
                return
            if op == "union":
                h = r.choice((b, e, h or b))
                del self.live[b], self.live[e]
                self.live[h] = d
                return self.step("union", h, "dunion %d %d %d" % (h, b, e), b=b, e=e, obs=(h,))
            self.live[h] = d
            return self.step(op, h, "d%s %d %d %d" % (op, h, b, e), b=b, e=e, obs=(h, b, e))
        if op == "project":
            n = r.randint(0, d)
            self.live[h] = n
            return self.step("project", h, "dproject %d %d %d" % (h, b, n), b=b, n=n, obs=(h, b))
        if op == "extend":
            n = r.randint(d, self.maxd)
            self.live[h] = n
            return self.step("extend", h, "dextend %d %d %d" % (h, b, n), b=b, n=n, obs=(h, b))
        if op in ("convex", "simple"):
            self.live[h] = d
            return self.step(op, h, "d%s %d %d" % (op, h, b), b=b, obs=(h, b))
        if op == "simpu":
            h = r.choice((b, h or b))
            del self.live[b]
            self.live[h] = d
            return self.step("simpu", h, "dsimpu %d %d" % (h, b), b=b, obs=(h,))
        if op == "cut":
            # (an empty union has no first part: asked by the script itself)
            f, rest = h, b
            self.live[f] = d
            return self.step("cut", f, "dcutq %d %d %d" % (f, rest, b), b=rest, e=b, obs=(f, rest))
        if op == "split":
            if d == 0:
                return
            self.live[h] = d
            return self.step("split", h, "dsplit %d %d %d" % (h, b, r.randint(1, d)), b=b, obs=(h, b))
        if op == "scatter":
            if d == 0 or d >= self.maxd:
                return
            rows = []
            for _ in range(self.maxd - d if r.random() < .5 else 1):
                c = [0] * (d + 2)
                c[0] = 0
                if r.random() < .7:
                    c[1 + r.randrange(d)] = r.choice((1, -1))
                else:
                    c[-1] = r.randint(self.lo + 1, self.hi - 1)
                rows.append(c)
            m = []
            for j, c in enumerate(rows):
                x = [0] * len(rows)
                x[j] = -1
                m.append([0] + x + c[1:-1] + [0] * self.np + [c[-1]])
            self.lines.append("tmat 1 0 %d %d %s" % (len(rows), self.np, mat(m, 2 + len(rows) + d + self.np)))
            n = d + len(rows)
            g = r.choice((b, h))
            del self.live[b]
            self.live[g] = n
            self.step("scatter", g, "dscatter %d %d 1\ntfree 1" % (g, b), b=b, obs=(g,))
            self.steps[-1]["rows"] = rows

    def ask(self):
        r = self.r
        a = self.pick()
        d = self.live[a]
        b = self.pick(d)
        op = r.choice(["empty?", "dim", "convex?", "equal?", "disjoint?", "bounded?", "otl?", "const?", "follows?",
                       "never?", "sort"])
        if op in ("empty?", "never?"):
            return self.step("empty?", a, "d%s %d" % (op, a), ask=True, obs=(a,))
        if op in ("dim", "convex?"):
            return self.step(op, a, "d%s %d" % (op, a), ask=True, obs=(a,))
        if op in ("equal?", "disjoint?"):
            return self.step(op, a, "d%s %d %d" % (op, a, b), b=b, ask=True, obs=(a, b))
        if d == 0:
            return
        n = r.randint(1, d)
        if op in ("bounded?", "otl?"):
            return self.step(op, a, "d%s %d %d" % (op, a, n), n=n, ask=True, obs=(a,))
        if op == "const?":
            return self.step(op, a, "d%s %d %d" % (op, a, n - 1), n=n - 1, ask=True, obs=(a,))
        if op == "follows?":
            return self.step(op, a, "d%s %d %d %d" % (op, a, b, n), b=b, n=n, ask=True, obs=(a, b))
        if op == "sort" and self.exact and not self.np:
            hs = [h for h in self.live if self.live[h] == d]
            r.shuffle(hs)
            hs = hs[:4]
            if len(hs) < 2:
                return
            self.lines.append("dsortq %d %s %d" % (len(hs), " ".join(map(str, hs)), n))
            self.nobs.append(("q", len(self.steps)))
            self.step("sort", 0, None, n=n, obs=hs)
            self.steps[-1]["hs"] = hs

    def script(self):
        for _ in range(self.r.choice((2, 3))):
            self.base()
        while len(self.steps) < self.r.choice((12, 16)):
            x = self.r.random()
            if x < .12 and len(self.live) < 7:
                self.base()
            elif x < .6:
                self.move()
            else:
                self.ask()
        self.step("dim", self.pick(), None, obs=tuple(self.live))
        self.lines.append("ddim %d" % self.steps[-1]["a"])
        self.nobs.append(("q", len(self.steps) - 1))
        for h in self.live:
            self.lines.append("dfree %d" % h)
        self.lines.append("sfree 0")
        return "\n".join(self.lines) + "\n"

    def trace(self, out):
        """the steps with what the library answered; None if they do not fit"""
        if len(out) != len(self.nobs):
            return None
        steps = [dict(s, obs={}) for s in self.steps]
        for w, v in zip(self.nobs, out):
            if w[0] == "q":
                steps[w[1]]["q"] = v
            else:
                steps[w[1]]["obs"].setdefault(w[2], []).extend([[w[3] + 1] + x for x in v])
        keep = []
        for s in steps:
            s["obs"] = [{"h": h, "pts": p} for h, p in s["obs"].items()]
            if s["op"] == "sort" and s["q"] == []:      # not applicable: a union among them
                continue
            if s["op"] == "convex?" and s["q"] not in (0, 1):
                s["q"] = 1
            keep.append(s)
        return keep


def _job(a):
    binary, tmp, hs = a
    return gen_retry(binary, [(i, h[1], []) for i, h in enumerate(hs)], tmp)


def c16(chk):
    b = chk.build(progs=("api",)) + "/api"
    n = 1500 if chk.quick else 12000
    hs = []
    r = chk.rng("histories")
    for k in range(n):
        h = Hist(r, r.random() < .45, r.choice((0, 0, 1)), r.choice((2, 2, 3)))
        hs.append((h, h.script()))
    size = n // 24 + 1
    parts = [hs[i:i + size] for i in range(0, n, size)]
    tl, src = [], {}
    for k, res in enumerate(pmap(_job, [(b, chk.tmp, p) for p in [[(None, t) for _, t in x] for x in parts]])):
        for i, (h, t) in enumerate(parts[k]):
            j = res.get(i) or {"exit": -1, "sig": -1}
            key = key_of(t, [])
            rep = {"script": t, "how": "harness/api.c runs the script of library calls"}
            if "done" not in j:
                if j["sig"] in (9, 14, 24) and not chk.curated:
                    chk.add("out_of_time")
                    continue
                chk.violation(key, "crash", dict(rep, note="exit %d signal %d" % (j["exit"], j["sig"])))
                continue
            tr = h.trace(j["out"])
            if tr is None:
                raise ToolError("outputs do not fit the script")
            cid = k * 1000 + i
            tl.append({"id": cid, "ps": [[]], "pv": h.pv, "np": h.np, "lo": h.lo, "hi": h.hi, "exact": h.exact,
                       "steps": tr})
            src[cid] = (key, rep, tr)
            for s in tr:
                chk.add("calls")
    verd, st = tlc_batch(chk, "DomOps", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for cid, vs in verd.items():
        chk.add("traces_validated_against_impl")
        for p, v, d in vs:
            if v != "ok":
                key, rep, tr = src[cid]
                i = int(p.strip("<>")) - 1
                chk.violation(key, "wrong", dict(rep, note="call %d: %s" % (i + 1, d), step=tr[i]))
    chk.sample({"script": hs[0][1]})


CHECKS = {"C16": c16}
