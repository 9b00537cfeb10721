"""AST handling: flattening for TLC, and a quick interpreter that only selects
which cases are handed to TLC first (TLC's verdict is the one that counts)."""


class Unsupported(Exception):
    pass


INTMAX = 2**31 - 1


def _i(s):
    v = int(s)
    if abs(v) > 2 * 10**8:
        raise Unsupported("wide constant")
    return v


def conv_expr(e):
    if e is None:
        raise Unsupported("missing bound")
    k = e["k"]
    if k == "n":
        return {"k": "n", "v": e["v"]}
    if k == "t":
        if e["e"] is None:
            return {"k": "c", "c": _i(e["c"])}
        return {"k": "t", "c": _i(e["c"]), "e": conv_expr(e["e"])}
    if k == "b":
        c = _i(e["c"])
        if c <= 0:
            raise Unsupported("non positive divisor")
        return {"k": "b", "o": e["o"], "e": conv_expr(e["e"]), "c": c}
    if k == "r":
        return {"k": "r", "o": e["o"], "l": [conv_expr(x) for x in e["l"]]}
    raise Unsupported("expr " + k)


def names_in(e, acc):
    if isinstance(e, list):
        for x in e:
            names_in(x, acc)
    elif isinstance(e, dict):
        if e.get("k") == "n":
            acc.add(e["v"])
        else:
            for x in e.values():
                names_in(x, acc)


def flatten(ast):
    nodes = []
    count = [0]                 # the loops, in the order of the text

    # sc: the loop variables in scope (an assignment does not say where the
    # scope of its variable ends)
    def lst(l, sc=()):
        ids = []
        sc = list(sc)
        for s in l:
            n = {}
            nodes.append(n)
            ids.append(len(nodes))
            k = s["k"]
            n["k"] = k
            n["u"] = []
            if k == "ass":
                n["v"] = s["v"]
                n["e"] = conv_expr(s["e"])
            elif k == "blk":
                n["b"] = lst(s["b"], sc)
            elif k == "for":
                n["v"] = s["v"]
                n["lb"] = conv_expr(s["lb"])
                n["ub"] = conv_expr(s["ub"])
                n["st"] = _i(s["st"])
                n["dp"] = s.get("dom") or []
                n["id"] = count[0] = count[0] + 1
                if "par" in s:
                    n.update({x: s[x] for x in ("par", "pv", "rd", "tv", "ud")})
                n["b"] = lst(s["b"], sc + [s["v"]])
            elif k == "if":
                n["q"] = [{"l": conv_expr(q["l"]), "r": conv_expr(q["r"]), "s": q["s"]}
                          for q in s["q"]]
                n["b"] = lst(s["b"], sc)
            elif k == "usr":
                n["s"] = s["s"]
                n["n"] = s.get("n") or ""
                n["p"] = s.get("usr", 0)
                n["dp"] = s.get("dom") or []
                n["sc"] = list(sc)
                n["sub"] = [conv_expr(x) for x in s["sub"]]
            else:
                raise Unsupported("stmt " + k)
            us = set()
            for x in ("e", "lb", "ub", "q", "sub"):
                if x in n:
                    names_in(n[x], us)
            n["u"] = sorted(us)
        for a, b in zip(ids, ids[1:]):
            nodes[a - 1]["nx"] = b
        if ids:
            nodes[ids[-1] - 1]["nx"] = 0
        return ids[0] if ids else 0

    entry = lst(ast)
    return nodes, entry


# ------------------------------------------------------- quick interpreter
def _cdiv(a, b):
    return -((-a) // b)


def _tdiv(a, b):
    return a // b if a >= 0 else -((-a) // b)


def _px(e, vm):
    k = e["k"]
    if k == "n":
        return vm(e["v"])
    if k == "t":
        if e["e"] is None:
            return "(%d)" % int(e["c"])
        return "(%d)*%s" % (int(e["c"]), _px(e["e"], vm))
    if k == "b":
        a, c = _px(e["e"], vm), int(e["c"])
        return {"fdiv": "((%s)//%d)", "cdiv": "_cdiv(%s,%d)", "div": "_tdiv(%s,%d)",
                "mod": "((%s)%%%d)"}[e["o"]] % (a, c)
    if k == "r":
        l = [_px(x, vm) for x in e["l"]]
        if not l:
            raise Unsupported("empty reduction")
        if e["o"] == "sum":
            return "(" + "+".join(l) + ")"
        if len(l) == 1:
            return "(" + l[0] + ")"
        return e["o"] + "(" + ",".join(l) + ")"
    raise Unsupported(k)


class Fuel(Exception):
    pass


def compile_ast(ast, params, fuel=200000):
    """returns f(p) -> list of (s, it)"""
    names = {}

    def vm(v):
        if v not in names:
            names[v] = "v%d" % len(names)
        return names[v]
    out = ["def f(P):", " R=[]; A=R.append; F=[%d]" % fuel]
    for k, q in enumerate(params):
        out.append(" %s=P[%d]" % (vm(q), k))
    cnt = [0]

    def emit(l, ind):
        sp = " " * ind
        if not l:
            out.append(sp + "pass")
        for s in l:
            k = s["k"]
            if k == "ass":
                out.append("%s%s=%s" % (sp, vm(s["v"]), _px(s["e"], vm)))
            elif k == "blk":
                emit(s["b"], ind)
            elif k == "for":
                if s["lb"] is None or s["ub"] is None:
                    raise Unsupported("unbounded")
                if int(s["st"]) <= 0:
                    raise Unsupported("stride")
                out.append("%sfor %s in range(%s,(%s)+1,%d):" %
                           (sp, vm(s["v"]), _px(s["lb"], vm), _px(s["ub"], vm), int(s["st"])))
                out.append(sp + " F[0]-=1")
                out.append(sp + " if F[0]<0: raise Fuel")
                emit(s["b"], ind + 1)
            elif k == "if":
                c = " and ".join("(%s)%s(%s)" % (_px(q["l"], vm), {0: "==", 1: ">=", -1: "<="}[q["s"]],
                                                 _px(q["r"], vm)) for q in s["q"]) or "True"
                out.append("%sif %s:" % (sp, c))
                emit(s["b"], ind + 1)
            elif k == "usr":
                out.append("%sA((%d,(%s)))" % (sp, s["s"], "".join(_px(x, vm) + "," for x in s["sub"])))
            else:
                raise Unsupported(k)
    emit(ast, 1)
    out.append(" return R")
    ns = {"_cdiv": _cdiv, "_tdiv": _tdiv, "Fuel": Fuel, "min": min, "max": max}
    exec("\n".join(out), ns)
    return ns["f"]


def quick_check(prog, f, p):
    """None if fine, else a short word."""
    try:
        tr = f(p)
    except Fuel:
        return "diverges"
    except (NameError, UnboundLocalError):
        return "unbound"
    return check_trace(prog, tr, p)


def check_trace(prog, tr, p):
    want = set()
    for s in range(len(prog.stmts)):
        for it in prog.points(s, p):
            want.add((s + 1, it))
    seen = set()
    last = None
    for x in tr:
        if x not in want:
            return "extra"
        if x in seen:
            return "twice"
        seen.add(x)
        if prog.nscat:
            dt = prog.date(x[0] - 1, x[1], p)
            if last is not None and dt < last:
                return "order"
            last = dt
    if len(seen) != len(want):
        return "missing"
    return None
