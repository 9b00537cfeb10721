"""C10: the command line."""
from core import *

ONE = "c\n2 4\n1 1 0 -1\n1 0 1 -1\n1\nM N\n2\n1\n4 6\n1 1 0 0 0 -1\n1 -1 0 1 0 0\n1 0 1 0 0 0\n1 0 -1 0 1 0\n" \
      "0 0 0\n1\n3 5\n1 1 0 0 0\n1 -1 0 1 0\n0 2 -1 0 0\n0 0 0\n0\n2\n2 8\n0 -1 0 1 0 0 0 0\n0 0 -1 0 1 0 0 0\n" \
      "2 7\n0 -1 0 1 0 0 1\n0 0 -1 0 0 0 2\n0\n"
TWO = "f\n1 3\n1 1 -1\n0\n1\n1\n2 4\n1 1 0 0\n1 -1 1 0\n0 0 0\n0\n0\n"


def setup_dir(d):
    os.makedirs(d, exist_ok=True)
    for n, t in (("one.cloog", ONE), ("two.cloog", TWO)):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    return d


def lines_of(txt):
    out = []
    seen = set()
    for l in txt.splitlines():
        if l.startswith('"LINE '):
            s = json.loads(l)[5:]
            if s not in seen:
                seen.add(s)
                out.append(json.loads(s))
    out.sort(key=lambda x: (x["line"], x["res"]))
    return out


def _replay(a):
    binary, tmp, ls = a
    d = setup_dir(tempfile.mkdtemp(dir=tmp))
    inp = "".join("%d\t%s\n" % (i, "\t".join(w or "\x01" for w in x["line"])) for i, x in enumerate(ls))
    r = subprocess.run([binary], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, errors="replace", cwd=d)
    res = {}
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
            res[j["id"]] = j
        except ValueError:
            pass
    shutil.rmtree(d, ignore_errors=True)
    return [judge(x, res.get(i)) for i, x in enumerate(ls)]


def judge(x, j):
    """None, or how the real reader departs from the specification"""
    if j is None:
        return "no answer"
    if j["sig"]:
        return "signal %d" % j["sig"]
    w = len(re.findall(r"\[CLooG\] WARNING: ", j["stderr"]))
    e = len(re.findall(r"\[CLooG\] ERROR: ", j["stderr"]))
    h = len(re.findall(r"^Usage: cloog", j["stdout"], re.M))
    v = len(re.findall(r"The Chunky Loop Generator$", j["stdout"], re.M))
    if w != x["warnings"]:
        return "%d warnings instead of %d" % (w, x["warnings"])
    if x["res"] == "error":
        return None if j["exit"] == 1 and e == 1 and "opt" not in j else "not refused"
    if (h, v) != (x["helps"], x["versions"]):
        return "help, version: %s" % ((h, v),)
    if e:
        return "refused: " + j["stderr"][-200:]
    if x["res"] == "info":
        return None if j["exit"] == 1 and "opt" not in j else "info: status %d" % j["exit"]
    if j["exit"] != 0 or "opt" not in j:
        return "status %d" % j["exit"]
    for k, val in x["opt"].items():
        if j["opt"].get(k) != val:
            return "%s is %s instead of %s" % (k, j["opt"].get(k), val)
    for k in ("in", "outf"):
        if j[k] != x[k]:
            return "%s is %s instead of %s" % (k, j[k], x[k])
    if j["name"] != x["in"]:
        return "input name " + j["name"]
    return None


FLAGS = {"leaks": "-leaks", "backtrack": "-backtrack", "override": "-override", "noblocks": "-noblocks",
         "noscalars": "-noscalars", "nosimplify": "-nosimplify", "quiet": "-q", "structure": "-struct"}


def canon(x):
    """the same settings on the shortest, sorted command line"""
    o = []
    for k in sorted(x["opt"]):
        if k in FLAGS:
            if x["opt"][k]:
                o.append(FLAGS[k])
        else:
            o += ["-" + k.replace("_", "-"), str(x["opt"][k])]
    return o


def _whole(a):
    """runs the program itself; the code goes where the line says, and is that
    of the canonical line"""
    binary, tmp, x = a

    def run(words):
        d = setup_dir(tempfile.mkdtemp(dir=tmp))
        try:
            r = subprocess.run([binary] + words, input=TWO, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", cwd=d, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        out = {"stdout": r.stdout}
        for n in os.listdir(d):
            if n.endswith(".out.c"):
                out[n] = open(os.path.join(d, n)).read()
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, out, r.stderr

    def code(t):
        return re.sub(r"Generated from .*", "", t)
    a = run(x["line"])
    b = run(canon(x) + [x["in"]])
    if a is None or b is None:
        return "no end"
    if a[0] or b[0]:
        return "status %d %d %s" % (a[0], b[0], a[2][-200:])
    if x["outf"] not in a[1]:
        return "no output"
    if code(a[1][x["outf"]]) != code(b[1]["stdout"]):
        return "different code"
    if any(t for n, t in a[1].items() if n != x["outf"]):
        return "output in two places"
    if x["opt"]["quiet"] and x["line"][0] in ("-q", "--quiet") and ("INFO" in a[2] or "WARNING" in a[2]):
        return "not quiet"
    return None


def c10(chk):
    d = chk.build(progs=("opts", "cloog"))
    rc, txt = java_tlc("Options.tla", "Options.cfg", {}, chk.tmp)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
    L = lines_of(txt)
    if rc or not m or len(L) < 1000:
        raise ToolError("Options.tla: " + txt[-1500:])
    chk.add("states", int(m.group(2).replace(",", "")))
    chk.add("transitions", int(m.group(1).replace(",", "")))
    rc, txt = java_tlc("Options.tla", "OptionsSim.cfg", {}, chk.tmp, workers=1,
                       extra=["-simulate", "num=%d" % (3000 if chk.quick else 30000), "-depth", "30",
                              "-seed", str(chk.seed)])
    S = lines_of(txt)
    if rc or len(S) < 1000:
        raise ToolError("Options.tla, simulation: " + txt[-1500:])
    chk.cov["command_lines_of_the_specification"] = len(L)
    rng = chk.rng("lines")
    short = [x for x in L if len(x["line"]) <= 3]
    rest = [x for x in L if len(x["line"]) > 3]
    todo = (rng.sample(short, 12000) + rng.sample(rest, 12000) if chk.quick else L) + S
    ch = [todo[i:i + 300] for i in range(0, len(todo), 300)]
    for ls, vs in zip(ch, pmap(_replay, [(d + "/opts", chk.tmp, c) for c in ch])):
        for x, v in zip(ls, vs):
            chk.add("traces_validated_against_impl")
            chk.add("lines_" + x["res"])
            if v:
                chk.violation(key_of(" ".join(x["line"]), []), "line", {
                    "note": "cloog %s: %s" % (" ".join(repr(w) for w in x["line"]), v), "expected": x})
    ok = [x for x in S + short if x["res"] == "ok" and not x["helps"] + x["versions"] and
          not x["opt"]["structure"]]
    ok = rng.sample(ok, min(len(ok), 600 if chk.quick else 4000))
    for x, v in zip(ok, pmap(_whole, [(d + "/cloog", chk.tmp, x) for x in ok])):
        chk.add("programs_run")
        if v:
            chk.violation(key_of(" ".join(x["line"]), ["run"]), "run", {
                "note": "cloog %s: %s" % (" ".join(repr(w) for w in x["line"]), v), "expected": x})
    for x in todo[:2] + S[:2]:
        chk.sample(" ".join(x["line"]) + " -> " + x["res"])


CHECKS = {"C10": c10}
