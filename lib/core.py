"""Common machinery of the checks: scratch space, building, running the real
generator on batches, handing cases to TLC, verdicts, known findings,
evidence."""
import atexit, collections, hashlib, itertools, json, os, random, re, shutil
import subprocess, sys, tempfile, time, traceback
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as B
from build import ToolError
from model import *
import astrun
from astrun import Unsupported

SPEC = os.path.join(HERE, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = 8


class Check:
    def __init__(self, pid, level, tier=None):
        self.pid, self.level = pid, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.cov = collections.OrderedDict()
        self.assume = []
        self.samples = []
        self.viol = []          # (key, what, replay dict)
        self.known_hit = {}
        self.known = load_known(pid)
        self.slow = load_slow()
        self.quick = self.tier == "quick"
        self.curated = self.seed == 1 and self.quick

    def rng(self, *salt):
        return random.Random("%d/%s/%s" % (self.seed, self.pid, "/".join(map(str, salt))))

    def build(self, **kw):
        return B.build(os.path.join(self.tmp, "b" + ("s" if kw.get("san") else "")), **kw)

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """key identifies the failing input, what the way it fails"""
        for k, w in self.known:
            if k == key and (w == what or w == "*"):
                self.known_hit.setdefault(k, what)
                return False
        if any(k == key for k, _, _ in self.viol):
            return True
        self.viol.append((key, what, replay))
        return True

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["none"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s input %s: %s" % (self.pid, k, self.known_hit[k]))
        if self.viol:
            rd = os.path.join(HERE, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, (key, what, rep) in enumerate(self.viol[:20]):
                path = os.path.join(rd, "%s-%s.json" % (self.pid, re.sub(r"[^\w.-]", "_", key)[:60]))
                rep = dict(rep)
                rep.update(property=self.pid, key=key, what=what)
                with open(path, "w") as f:
                    json.dump(rep, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + what + (": " + str(rep.get("note"))[:300] if rep.get("note") else ""))
            print("%s: %d violation(s), %.1fs" % (self.pid, len(self.viol), time.time() - self.t0))
            return 1
        print("%s: held on everything explored (%s) in %.1fs" % (
            self.pid, ", ".join("%s=%s" % (k, v) for k, v in self.cov.items()
                                if isinstance(v, int)), time.time() - self.t0))
        return 0


def load_known(pid):
    out = []
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) input=(\S+) what=(\S+)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def load_slow():
    """Inputs on which the unchanged generator needs very long (isl's
    exponential corners): they are left out of the corpora."""
    fn = os.path.join(HERE, "corpus", "slow.txt")
    if os.path.exists(fn):
        return {l.split()[0] for l in open(fn) if l.strip() and l[0] != "#"}
    return set()


def key_of(text, opts):
    return hashlib.sha1((text + "\n" + " ".join(opts)).encode()).hexdigest()[:16]


def main(pid, level, fn):
    c = None
    try:
        c = Check(pid, level)
        fn(c)
        return c.finish()
    except ToolError as e:
        print("%s: tool error: %s" % (pid, e), file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


# ----------------------------------------------------------------- generator
class Case:
    __slots__ = ("prog", "opts", "text", "key", "tag", "pr", "np_", "nm", "ps", "printed", "unit")

    def __init__(self, prog, opts=(), tag="", text=None, pr=(-3, 6), np_=12, nm=False):
        self.prog, self.opts, self.tag = prog, list(opts), tag
        self.text = text if text is not None else to_text(prog)
        self.key = key_of(self.text, self.opts)
        self.pr, self.np_, self.nm = pr, np_, nm      # nm: TLC checks the names, too
        self.unit = None                # C19: the text has big numbers, multiples of unit


def run_gen(binary, jobs, tmp, timeout=5):
    """jobs: list of (id, text, tokens); returns {id: dict}"""
    lines = []
    d = tempfile.mkdtemp(dir=tmp)
    for i, text, toks in jobs:
        fn = os.path.join(d, "%s.cloog" % i)
        with open(fn, "w") as f:
            f.write(text)
        lines.append("%s\t%d\t%s\t%s" % (i, timeout, fn, " ".join(toks)))
    r = subprocess.run([binary], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=d)
    out = {}
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        out[j["id"]] = j
    shutil.rmtree(d, ignore_errors=True)
    return out


def gen_retry(binary, jobs, tmp, timeout=8):
    """Like run_gen; a job that ran out of time gets a second, long chance."""
    res = run_gen(binary, jobs, tmp, timeout)
    again = [j for j in jobs if j[0] not in res or
             ("done" not in res[j[0]] and res[j[0]]["sig"] in (9, 14, 24))]
    if again:
        res.update(run_gen(binary, again[:4], tmp, 60))
        for j in again[4:]:
            res.setdefault(j[0], {"id": j[0], "exit": -1, "sig": 24})
    return res


def params_for(case, rng):
    pr = case.prog
    al = [p for p in itertools.product(range(case.pr[0], case.pr[1] + 1), repeat=pr.np)]
    if len(al) > 4000:
        al = rng.sample(al, 4000)
    al = [p for p in al if pr.in_ctx(p)]
    if len(al) > case.np_:
        al = rng.sample(al, case.np_)
    return al


LIMPTS = 700


def names_of(prog):
    """(scattering names, iterator names) of the generated code"""
    md = max([x.d for x in prog.stmts] or [0])
    return (prog.snames or ["c%d" % k for k in range(1, prog.nscat + 1)],
            prog.inames or [chr(ord("i") + k) for k in range(md)])


def pn_of(c, j):
    """names of the parameters: the input's own where it gives them"""
    return c.prog.pnames if c.nm and getattr(c.prog, "pnames", None) else j["params"]


def tlc_case(prog, cid, ast, params, ps, nm=False):
    nodes, entry = astrun.flatten(ast)
    sn, inm = names_of(prog)
    return {"nm": nm, "sn": sn, "inm": inm, "id": cid, "nodes": nodes, "entry": entry, "stmts": tlc_stmts(prog, ps),
            "ctx": [{"rows": q.rows, "ex": [list(e) for e in q.ex]} for q in prog.ctx],
            "ps": [list(p) for p in ps], "pn": params}


def tlc_stmts(prog, ps):
    out = []
    for s, x in enumerate(prog.stmts):
        bb = [b for b in (prog.bbox(s, p) for p in ps) if b is not None]
        box = [[min(b[k][0] for b in bb), max(b[k][1] for b in bb)] for k in range(x.d)] \
            if bb else [[0, -1]] * x.d
        if not bb and x.d == 0:
            box = []
        out.append({"dom": [{"rows": q.rows, "ex": ex_box(q, x.d, ps)} for q in x.polys],
                    "sch": x.sch or [], "box": box, "name": x.name or "", "usr": x.usr})
    return out


def ex_box(q, d, ps):
    """search box of the existentials, for the parameter values considered"""
    if not q.ex:
        return []
    bb = [b for b in (prop_box(q, d, p, ex=True) for p in ps) if b is not None]
    return [[min(b[k][0] for b in bb), max(b[k][1] for b in bb)] if bb else [0, -1]
            for k in range(len(q.ex))]


def small_enough(prog, ps):
    """box volume TLC has to enumerate"""
    tot = 0
    for p in ps:
        for s, x in enumerate(prog.stmts):
            b = prog.bbox(s, p)
            if b is None:
                continue
            v = 1
            for lo, hi in b:
                v *= hi - lo + 1
            for q in x.polys:
                w = v
                for a, z in ex_box(q, x.d, [p]):
                    w *= z - a + 1
                tot += w
    return tot


def _chunk(a):
    """worker: run the generator on a chunk of cases and screen the ASTs"""
    binary, tmp, cases, seed, tlc_share = a
    rng = random.Random(seed)
    res = gen_retry(binary, [(i, c.text, c.opts) for i, c in enumerate(cases)], tmp)
    out = []
    for i, c in enumerate(cases):
        j = res.get(i)
        if j is None or "done" not in j:
            j = j or {"exit": -1, "sig": -1}
            out.append((i, "timeout" if j["sig"] in (9, 14, 24) else
                        "crash", None, None, "exit %d signal %d" % (j["exit"], j["sig"])))
            continue
        ps = params_for(c, random.Random(c.key))
        if "out" in j:                      # a script of library calls (harness/api.c)
            j.update([x for x in j["out"] if isinstance(x, dict)][-1])
            if c.tag == "umap":             # the order of the statements is the library's
                c = cases[i] = by_name(c, j["ast"])
        try:
            if c.unit:
                j["ast"] = rescaled(j["ast"], c.unit)
            f = astrun.compile_ast(j["ast"], pn_of(c, j))
        except Fraction:
            out.append((i, "ok", None, [], 0))
            continue
        except Unsupported as e:
            out.append((i, "malformed", j, None, str(e)))
            continue
        bad, badp, n = None, None, 0
        use = []
        for p in ps:
            try:
                b = astrun.quick_check(c.prog, f, p)
            except OverflowError:
                continue
            use.append(p)
            if b:
                bad, badp = b, p
                break
        if bad:
            out.append((i, bad, j, [badp], ""))
        else:
            sel = []
            if rng.random() < tlc_share:
                vol = 0
                for p in use:
                    v = small_enough(c.prog, [p])
                    if v <= 4000 and vol + v <= 12000:
                        sel.append(p)
                        vol += v
                    if len(sel) >= 5:
                        break
            out.append((i, "ok", j if sel else None, sel, len(use)))
    return out


UNIT = 720720           # 1..16 divide it


class Fraction(Exception):
    pass


def rescale(v, unit):
    """A number of code for big constants: (n/d)*unit + b becomes
    (n/d)*UNIT + b."""
    if abs(v) < 100000:
        return v
    for d in range(1, 61):
        if UNIT % d == 0:
            n = (2 * v * d + unit) // (2 * unit)
            b = v - n * (unit // d)
            if abs(b) < 20000:
                return n * (UNIT // d) + b
    for d in range(1, 201):             # a fraction the small unit does not have
        n = (2 * v * d + unit) // (2 * unit)
        if abs(v * d - n * unit) < 2000 * d:
            raise Fraction
    raise Unsupported("number %d" % v)


def rescaled(x, unit):
    if isinstance(x, dict):
        return {k: rescaled(y, unit) for k, y in x.items()}
    if isinstance(x, list):
        return [rescaled(y, unit) for y in x]
    if isinstance(x, str) and re.match(r"-?\d{6,}$", x):      # (integers are strings)
        return str(rescale(int(x), unit))
    return x


def by_name(c, ast):
    """the case with its statements in the order of the numbers in the AST"""
    num = {}

    def go(l):
        for x in l:
            if x["k"] == "usr":
                num.setdefault(x["n"], x["s"])
            go(x.get("b", []))
    go(ast)
    free = [k for k in range(1, len(c.prog.stmts) + 1) if k not in num.values()]
    pos = {}
    for x in c.prog.stmts:
        pos[x.name] = num[x.name] if x.name in num else free.pop() if free else 99
    import copy
    d = copy.copy(c)
    d.prog = copy.copy(c.prog)
    d.prog.stmts = sorted(c.prog.stmts, key=lambda x: pos[x.name])
    return d


def pmap(fn, items):
    with Pool(NCPU) as P:
        return P.map(fn, items, chunksize=1)


def run_cases(chk, binary, cases, tlc_share=.25, expect_ok=True, tlc_cap=1500):
    """Runs the real generator on every case and checks the ASTs: quick
    screening of all, TLC on a share of the clean ones and on everything that
    looks wrong.  Only TLC's word (or a crash / missing output) makes a
    violation."""
    cases = [c for c in cases if c.key not in chk.slow]
    seen, uniq = set(), []
    for c in cases:
        if c.key not in seen:
            seen.add(c.key)
            uniq.append(c)
    cases = uniq
    size = max(8, min(40, len(cases) // (NCPU * 3) + 1))
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    res = pmap(_chunk, [(binary, chk.tmp, ch, "%d/%s/%d" % (chk.seed, chk.pid, k), tlc_share)
                        for k, ch in enumerate(chunks)])
    tl, suspects = [], {}
    nclean = 0
    late = []
    for k, rr in enumerate(res):
        for i, verdict, j, ps, note in rr:
            c = chunks[k][i]
            if c.tag == "umap" and j and "ast" in j:
                c = by_name(c, j["ast"])
            cid = k * 1000 + i
            chk.add("programs")
            if verdict == "timeout" and not chk.curated:
                late.append((c, note))
                continue
            if verdict in ("crash", "timeout"):
                chk.violation(c.key, verdict, replay_of(c, None, note))
                continue
            if verdict == "malformed":
                chk.violation(c.key, "malformed", replay_of(c, j, note))
                continue
            if c.nm and j and "lang" in j and j["lang"] != "cf".index(getattr(c.prog, "lang", None) or "c"):
                chk.violation(c.key, "language", replay_of(c, j, "output language %d" % j["lang"]))
            if verdict != "ok":
                suspects[cid] = (c, j, ps, verdict)
                try:
                    tl.append(tlc_case(c.prog, cid, j["ast"], pn_of(c, j), ps, c.nm))
                except Unsupported as e:
                    chk.violation(c.key, "malformed", replay_of(c, j, str(e)))
            else:
                chk.add("screened_param_values", note)
                if ps and nclean < tlc_cap:
                    try:
                        tl.append(tlc_case(c.prog, cid, j["ast"], pn_of(c, j), ps, c.nm))
                        suspects[cid] = (c, j, ps, "ok")
                        nclean += 1
                    except Unsupported:
                        pass
    if not cases:
        raise ToolError("empty corpus")
    # the list of slow inputs is complete for seed 1 only: elsewhere a few
    # inputs may need longer than a check can wait
    if late:
        chk.add("out_of_time", len(late))
    if len(late) > 5:
        for c, note in late:
            chk.violation(c.key, "timeout", replay_of(c, None, note))
    verd, st = tlc_batch(chk, "AstScan", tl)
    chk.add("states", st[0])
    chk.add("transitions", st[1])
    for cid, vs in verd.items():
        c, j, ps, pv = suspects[cid]
        chk.add("traces_validated_against_impl", len(vs))
        for p, v, inst in vs:
            if v not in ("ok",):
                r = replay_of(c, j, "parameters %s: %s %s" % (p, v, inst))
                r["params_value"] = p
                chk.violation(c.key, v, r)
    for c in cases[:3]:
        chk.sample({"input": c.text, "options": " ".join(c.opts)})
    return len(cases)


def prog_json(p):
    return {"np": p.np, "nscat": p.nscat, "ctx": [[q.rows, q.ex] for q in p.ctx],
            "stmts": [{"d": x.d, "polys": [[q.rows, q.ex] for q in x.polys], "sch": x.sch}
                      for x in p.stmts]}


def prog_from_json(j):
    return Program(j["np"], [Poly(*q) for q in j["ctx"]],
                   [Stmt(x["d"], [Poly(*q) for q in x["polys"]], x["sch"]) for x in j["stmts"]], j["nscat"])


def replay_of(c, j, note):
    return {"input": c.text, "options": " ".join(c.opts), "note": note, "tag": c.tag,
            "ast": (j or {}).get("ast"), "prog": prog_json(c.prog),
            "how": "cloog %s <file with the input>" % " ".join(c.opts)}


# ----------------------------------------------------------------------- TLC
def java_tlc(module, cfg, env, workdir, workers=NCPU, extra=(), timeout=700):
    md = tempfile.mkdtemp(dir=workdir)
    e = dict(os.environ)
    e.update(env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["timeout", str(timeout), "tlc", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", cwd=SPEC, env=e)
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


_V = re.compile(r'^<<"VERDICT", (-?\d+), (<<.*?>>), "([a-z_]+)", (.*)>>\s*$')


def tlc_batch(chk, module, cases, conf=True):
    """Runs TLC on the cases; {id: [(params, verdict, detail)]} and counts.
    A case TLC cannot evaluate (arithmetic outside its 32-bit integers) is
    isolated by halving and dropped."""
    out = collections.defaultdict(list)
    st = [0, 0]

    def go(cs, depth):
        if not cs:
            return
        if len(cs) > 1600:
            h = len(cs) // 2
            go(cs[:h], depth)
            go(cs[h:], depth)
            return
        fn = os.path.join(chk.tmp, "cases_%d.json" % random.randrange(10**9))
        with open(fn, "w") as f:
            json.dump(cs, f)
        rc, txt = java_tlc(module + ".tla", module + ".cfg", {"CASES": fn}, chk.tmp)
        os.unlink(fn)
        want = {c["id"]: len(c["ps"]) for c in cs}
        got = collections.defaultdict(list)
        # (TLC breaks long values into several lines)
        flat = re.sub(r'<< "VERDICT",((?:\n\s+.*)+)', lambda m: '<<"VERDICT", ' + " ".join(
            m.group(1).split()).replace("<< ", "<<").replace(" >>", ">>"), txt)
        for l in flat.splitlines():
            m = _V.match(l)
            if m:
                got[int(m.group(1))].append((m.group(2), m.group(3), m.group(4)))
        ok = rc == 0 and all(len(got[i]) == n for i, n in want.items())
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
        if ok:
            for i in want:
                out[i] += got[i]
            if m:
                st[0] += int(m.group(2).replace(",", ""))
                st[1] += int(m.group(1).replace(",", ""))
            return
        if len(cs) == 1:
            if depth < 30:
                return go(cs, 30)              # once more, by itself
            if "Overflow when computing" in txt:
                chk.add("beyond_tlc_integers")
                return
            k = txt.find("Error:")
            raise ToolError("TLC failed on one case (%s):\n%s\n...\n%s" % (module, txt[k:k + 1500], txt[-500:]))
        if depth > 14:
            raise ToolError("TLC keeps failing:\n" + txt[-2000:])
        h = len(cs) // 2
        go(cs[:h], depth + 1)
        go(cs[h:], depth + 1)
    go(cases, 0)
    return out, st
