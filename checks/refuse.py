"""C09: every input file is taken or refused, never anything else."""
from core import *
import gen as G
import docs
import notation as NT

ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=77",
       "UBSAN_OPTIONS": "halt_on_error=1:exitcode=78:print_stacktrace=1"}


def outcome(a):
    """what the real program does with a text: accept, refuse or something bad"""
    binary, text, opts = a
    e = dict(os.environ)
    e.update(ENV)
    for to in (20, 120):
        try:
            r = subprocess.run([binary] + opts + ["stdin"], input=text.encode("latin1"), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=e, timeout=to, cwd="/")
            break
        except subprocess.TimeoutExpired:
            r = None
    if r is None:
        return "hang", ""
    err = r.stderr.decode("latin1")
    if r.returncode == 0:
        return ("accept" if r.stdout.strip() else "silent"), err[-600:]
    if r.returncode == 1:
        return ("refuse" if "[CLooG] ERROR: " in err else "unexplained"), err[-600:]
    return "crash", "status %d: %s" % (r.returncode, err[:1500])


def mutate(r, text):
    """a damaged text; no number grows beyond two digits"""
    ls = text.split("\n")
    for _ in range(r.choice((1, 1, 2, 3))):
        k = r.randrange(len(ls))
        w = r.random()
        if w < .2:
            del ls[k]
        elif w < .3:
            ls.insert(k, ls[r.randrange(len(ls))])
        elif w < .4:
            j = r.randrange(len(ls))
            ls[k], ls[j] = ls[j], ls[k]
        elif w < .5:
            ls = ls[:k + 1]
            ls[k] = ls[k][:r.randrange(len(ls[k]) + 1)]
        elif ls[k]:
            t = ls[k].split(" ")
            j = r.randrange(len(t))
            if w < .65:
                del t[j]
            elif w < .8:
                t[j] = r.choice(("x", "-", "1", "0", "-1", "2", "{", "[N] -> { [i] : 0 <= i <= N }", "1.5", "\x01",
                                 "#", "S1", "99", "->", "}"))
            else:
                t.insert(j, r.choice(("0", "1", "-1", "#", "x", "2", "\t")))
            ls[k] = " ".join(t)
        if not ls:
            ls = [""]
    return "\n".join(ls) + ("\n" if r.random() < .9 else "")


def c09(chk):
    bs = chk.build(san=True, progs=("cloog",)) + "/cloog"
    b = chk.build() + "/gen"
    rc, txt = java_tlc("Reader.tla", "Reader.cfg", {}, chk.tmp)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
    D = docs.tlc_docs(txt)
    if rc or not m or len(D) < 1000:
        raise ToolError("Reader.tla: " + txt[-1500:])
    chk.add("states", int(m.group(2).replace(",", "")))
    chk.add("transitions", int(m.group(1).replace(",", "")))
    chk.cov["documents_of_the_specification"] = len(D)
    rng = chk.rng("docs")
    S = rng.sample(D, 6000) if chk.quick else D
    jobs, want = [], []
    for d in S:
        text, p = docs.render(d)
        jobs.append((bs, text, []))
        want.append(d)
    res = pmap(outcome, jobs)
    for d, j, (o, note) in zip(want, jobs, res):
        chk.add("traces_validated_against_impl")
        chk.add("expected_" + d["out"])
        if o == d["out"] or (d["out"] == "any" and o in ("accept", "refuse")):
            continue
        bad = [x for x in d["doc"] if x["f"] != "ok"]
        chk.violation(key_of(j[1], []), o, {"input": j[1], "options": "", "note": "expected %s (%s), got %s: %s" % (
            d["out"], bad, o, note), "how": "cloog stdin < input", "tag": "document"})
    # the accepted ones are the programs they describe
    acc = [d for d in S if d["out"] == "accept"]
    cs = []
    for d in acc[:600 if chk.quick else 4000]:
        text, p = docs.render(d)
        if p.nscat and not any(x["k"] == "scnt" for x in d["doc"]):
            continue
        if d["doc"][-1]["k"] == "eof":
            p.nscat, p.snames = 0, None
            for s in p.stmts:
                s.sch = None
        cs.append(Case(p, text=text, tag="document", nm=True))
    run_cases(chk, b, cs, tlc_share=.5)
    # damaged texts: taken or refused
    jobs = []
    for k in range(2500 if chk.quick else 40000):
        if rng.random() < .4:
            t = docs.render(rng.choice(acc))[0]
        else:
            p = G.gen_program(rng, sched=rng.choice((False, "2d+1", "single")), depth=rng.choice((1, 2)),
                              nst=rng.choice((1, 2)))
            NT.add_names(p, rng)
            t = (NT.isl_file if rng.random() < .25 else NT.polylib)(p, rng)
        jobs.append((bs, mutate(rng, t), G.gen_options(rng, 0, 2)))
    for j, (o, note) in zip(jobs, pmap(outcome, jobs)):
        chk.add("damaged_" + o)
        if o not in ("accept", "refuse") and not (o == "hang" and not chk.curated):
            chk.violation(key_of(j[1], j[2]), o, {"input": j[1], "options": " ".join(j[2]), "note": note,
                                                  "how": "cloog stdin < input", "tag": "damaged"})


CHECKS = {"C09": c09}
