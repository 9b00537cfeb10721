-------------------------------- MODULE Clast --------------------------------
(* Operational semantics of the AST (clast) CLooG returns, as documented in  *)
(* the user's guide, chapter "CLooG Output".                                 *)
EXTENDS ZPoly, TLC

RECURSIVE Eval(_, _)
RECURSIVE Fold(_, _, _, _)
Fold(o, l, n, env) ==
  IF n = 1 THEN Eval(l[1], env)
  ELSE LET a == Fold(o, l, n-1, env)
           b == Eval(l[n], env)
       IN CASE o = "sum" -> a + b
            [] o = "min" -> Min2(a, b)
            [] o = "max" -> Max2(a, b)
Eval(e, env) ==
  CASE e.k = "n" -> env[e.v]
    [] e.k = "c" -> e.c                         \* constant term
    [] e.k = "t" -> e.c * Eval(e.e, env)        \* coefficient * subexpression
    [] e.k = "b" -> LET a == Eval(e.e, env)
                    IN (CASE e.o = "fdiv" -> FloorDiv(a, e.c)
                          [] e.o = "cdiv" -> CeilDiv(a, e.c)
                          [] e.o = "div"  -> TruncDiv(a, e.c)
                          [] e.o = "mod"  -> FloorMod(a, e.c))
    [] e.k = "r" -> Fold(e.o, e.l, Len(e.l), env)

EqHolds(q, env) ==
  LET a == Eval(q.l, env)
      b == Eval(q.r, env)
  IN CASE q.s = 0  -> a = b
       [] q.s < 0  -> a <= b
       [] q.s > 0  -> a >= b
GuardHolds(g, env) == \A k \in 1..Len(g.q) : EqHolds(g.q[k], env)

Bind(env, x, v) == (x :> v) @@ env
=============================================================================
