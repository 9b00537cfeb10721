------------------------------- MODULE ZPoly -------------------------------
(* Z-polyhedra as CLooG's input describes them: a constraint is a row        *)
(*     << kind, c1, ..., cn, k >>     kind = 0: sum = 0,  kind = 1: sum >= 0 *)
(* over the concatenation of the iterators, the existentially quantified     *)
(* variables and the parameters.  A domain is a union of such polyhedra.     *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE DotUpTo(_, _, _)
DotUpTo(row, v, n) == IF n = 0 THEN 0 ELSE row[n+1] * v[n] + DotUpTo(row, v, n-1)

\* value of the affine form row[2..] at the point v (the last entry is the constant)
Affine(row, v) == DotUpTo(row, v, Len(v)) + row[Len(v) + 2]

SatRow(row, v) == IF row[1] = 0 THEN Affine(row, v) = 0 ELSE Affine(row, v) >= 0

SatAll(rows, v) == \A r \in 1..Len(rows) : SatRow(rows[r], v)

\* all integer vectors of the box << <<lo,hi>>, ... >>
RECURSIVE BoxUpTo(_, _)
BoxUpTo(box, n) ==
  IF n = 0 THEN { <<>> }
  ELSE { Append(t, x) : t \in BoxUpTo(box, n-1), x \in box[n][1]..box[n][2] }
Box(box) == BoxUpTo(box, Len(box))

(* A polyhedron: [rows |-> ..., ex |-> box of its existential variables].   *)
InPoly(poly, it, p) ==
  IF Len(poly.ex) = 0 THEN SatAll(poly.rows, it \o p)
  ELSE \E e \in Box(poly.ex) : SatAll(poly.rows, it \o e \o p)

InUnion(polys, it, p) == \E k \in 1..Len(polys) : InPoly(polys[k], it, p)

FloorDiv(a, b) == a \div b
CeilDiv(a, b)  == -((-a) \div b)
FloorMod(a, b) == a % b
\* the C language's division (truncation towards zero)
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

\* strict lexicographic order on tuples of equal length
RECURSIVE LexLessFrom(_, _, _)
LexLessFrom(a, b, k) ==
  IF k > Len(a) THEN FALSE
  ELSE \/ a[k] < b[k]
       \/ a[k] = b[k] /\ LexLessFrom(a, b, k+1)
LexLess(a, b) == LexLessFrom(a, b, 1)
=============================================================================
