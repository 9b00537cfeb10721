-------------------------------- MODULE Scan --------------------------------
(* What CLooG promises, as a state machine.  A program is a set of statement *)
(* instances <<s, it>>; an instance belongs to the program iff its iteration *)
(* vector lies in the statement's domain (and has an integral logical date). *)
(* A run executes instances one at a time.  An instance may be executed iff  *)
(* it is still to do and no pending instance has a strictly smaller date.    *)
(* The run may stop iff nothing is left to do.                               *)
EXTENDS ZPoly

(* Program data for the current case:                                        *)
(*  st.dom   union of polyhedra                                              *)
(*  st.sch   sequence of date components, each                               *)
(*             <<d, c1..cn, q1..qm, k>> meaning  floor((c.it + q.p + k) / d)  *)
(*             for d >= 1, and the exact quotient for d <= -1 (an instance    *)
(*             whose value is not a multiple of |d| has no date)             *)
(*  st.box   a box containing the domain for the parameters considered       *)

Comp(c, it, p) ==
  LET v == DotUpTo(c, it \o p, Len(it) + Len(p)) + c[Len(it) + Len(p) + 2]
  IN IF c[1] > 0 THEN FloorDiv(v, c[1]) ELSE FloorDiv(v, -c[1])
HasDate(st, it, p) ==
  \A k \in 1..Len(st.sch) :
     \/ st.sch[k][1] >= -1
     \/ FloorMod(DotUpTo(st.sch[k], it \o p, Len(it) + Len(p))
                 + st.sch[k][Len(it) + Len(p) + 2], -st.sch[k][1]) = 0
Date(st, it, p) == [ k \in 1..Len(st.sch) |-> Comp(st.sch[k], it, p) ]

Member(st, it, p) == /\ Len(it) = Len(st.box)
                     /\ InUnion(st.dom, it, p)
                     /\ HasDate(st, it, p)

Points(st, p) == { it \in Box(st.box) : Member(st, it, p) }
Instances(stmts, p) == UNION { { <<s, it>> : it \in Points(stmts[s], p) } : s \in 1..Len(stmts) }

(* The transition relation, over "todo" (instances still to execute) and     *)
(* "last" (date of the most recent instance, <<>> before the first one).     *)
MayExec(stmts, p, todo, last, s, it) ==
  /\ <<s, it>> \in todo
  /\ IF last = <<>> THEN TRUE ELSE ~ LexLess(Date(stmts[s], it, p), last)
=============================================================================
