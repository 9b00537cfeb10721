------------------------------- MODULE DomOps -------------------------------
(* The library's domains as a state machine.  The state maps the handles a    *)
(* caller holds to sets of integer points; every library call is an action    *)
(* that creates, replaces or consumes handles.  A domain depends on           *)
(* parameters: a point is <<k, x1..xd>>, k the number of a parameter vector.  *)
(*                                                                            *)
(* All base domains lie strictly inside the window lo..hi (or are everything),*)
(* so that a point on the border of the window stands for everything beyond   *)
(* it.  Operations that may leave this reading (simplified or hulled domains  *)
(* can have any shape outside) clear the flag w of their result.              *)
(*                                                                            *)
(* Traces recorded from the real library (calls, answers, and the points of   *)
(* the handles a call touched) are checked against the actions.               *)
EXTENDS ZPoly, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, i, dom, verdict
vars == <<c, i, dom, verdict>>

K     == Cases[c]
Step  == K.steps[i]
NP    == Len(K.pv)
W(d)  == Box([ j \in 1..d |-> <<K.lo, K.hi>> ])
Full(d) == { <<k>> \o x : k \in 1..NP, x \in W(d) }

ToSet(s) == { s[j] : j \in 1..Len(s) }
\* the observed points of handle h after the step
Obs(h) == LET j == CHOOSE j \in 1..Len(Step.obs) : Step.obs[j].h = h IN ToSet(Step.obs[j].pts)
HasObs(h) == \E j \in 1..Len(Step.obs) : Step.obs[j].h = h

Poly(rows, d) == { pt \in Full(d) : SatAll(rows, Tail(pt) \o K.pv[pt[1]]) }
PolyU(u, d)   == UNION { Poly(u[j], d) : j \in 1..Len(u) }
Pts(h) == dom[h].p
Dim(h) == dom[h].d
\* w: the border of the window really stands for everything beyond it
Dom(d, p, w) == [d |-> d, p |-> p, w |-> w]
Whole(h) == dom[h].w
Set(h, v) == dom' = (h :> v) @@ dom
Drop(f, hs) == [ h \in DOMAIN f \ hs |-> f[h] ]
\* operands are consumed first, then the result is stored
Put(h, v, hs) == dom' = (h :> v) @@ Drop(dom, hs)

Proj(p, n)   == { SubSeq(pt, 1, n + 1) : pt \in p }
Ext(p, d, n) == { pt \o x : pt \in p, x \in W(n - d) }

\* evaluate as a value: as part of an action TLC would nest once per element
Holds(x) == x = TRUE

Midpoint(a, b, n) == [ j \in 1..n |-> IF j = 1 THEN a[1] ELSE (a[j] + b[j]) \div 2 ]
\* no two points of the same parameters whose middle is an integer point outside
Convex(p, n) == \A a \in p : \A b \in p :
   (a[1] = b[1] /\ \A j \in 2..n : (a[j] + b[j]) % 2 = 0) => Midpoint(a, b, n) \in p
IsBox(p, d) == \A pt \in Full(d) :
   (\A j \in 1..d : (\E l \in p : l[j + 1] <= pt[j + 1]) /\ (\E u \in p : u[j + 1] >= pt[j + 1])) => pt \in p
Inner(p, d) == \A pt \in p : \A j \in 2..d+1 : pt[j] > K.lo /\ pt[j] < K.hi

-----------------------------------------------------------------------------
(* The calls.  a is the result, b and e the operands, n a number.             *)
Op == Step.op
A == Step.a
B == Step.b
E == Step.e
N == Step.n
R == Obs(A)                     \* observed result

Base == /\ Op = "base"
        /\ Set(A, Dom(N, PolyU(Step.rows, N), TRUE))
Copy == /\ Op = "copy"     /\ Set(A, dom[B])
Free == /\ Op = "free"     /\ dom' = Drop(dom, {A})
Empty == /\ Op = "empty"   /\ Set(A, Dom(Dim(B), {}, TRUE))
Union == /\ Op = "union"   /\ Put(A, Dom(Dim(B), Pts(B) \cup Pts(E), Whole(B) /\ Whole(E)), {B, E})
Inter == /\ Op = "inter"   /\ Set(A, Dom(Dim(B), Pts(B) \cap Pts(E), Whole(B) /\ Whole(E)))
Diff  == /\ Op = "diff"    /\ Set(A, Dom(Dim(B), Pts(B) \ Pts(E), Whole(B) /\ Whole(E)))
Extend == /\ Op = "extend" /\ Set(A, Dom(N, Ext(Pts(B), Dim(B), N), Whole(B)))
SimpU == /\ Op = "simpu"   /\ Put(A, Dom(Dim(B), Pts(B), Whole(B)), {B})
Scatter == /\ Op = "scatter"
           /\ LET d == Dim(B)
                  new == { <<pt[1]>> \o [ j \in 1..Len(Step.rows) |-> DotUpTo(Step.rows[j], Tail(pt), d)
                                           + Step.rows[j][d + 2] ] \o Tail(pt) : pt \in Pts(B) }
              IN Put(A, Dom(d + Len(Step.rows), new, Whole(B) /\ Inner(Pts(B), d)), {B})

\* results that are only bounded by the promise: the observed value is taken
Project == /\ Op = "project"
           /\ Proj(Pts(B), N) \subseteq R
           /\ (K.exact /\ Whole(B)) => R = Proj(Pts(B), N)
           /\ Set(A, Dom(N, R, Whole(B)))
Hull == /\ Op \in {"convex", "simple"}
        /\ Pts(B) \subseteq R
        /\ Holds(Convex(R, Dim(B) + 1))
        /\ Holds((Whole(B) /\ Inner(Pts(B), Dim(B))) => Inner(R, Dim(B)))
        /\ Holds((K.exact /\ K.np = 0 /\ Whole(B) /\ IsBox(Pts(B), Dim(B))) => R = Pts(B))
        /\ Set(A, Dom(Dim(B), R, Whole(B) /\ (K.exact \/ Inner(R, Dim(B)))))
Simplify == /\ Op = "simplify"
            /\ R \cap Pts(E) = Pts(B) \cap Pts(E)
            /\ Set(A, Dom(Dim(B), R, Whole(B) /\ Whole(E) /\ K.exact /\ K.np = 0))
Cut == /\ Op = "cut"                       \* a: first, b: rest, e: the operand
       /\ R \cup Obs(B) = Pts(E)
       /\ Holds(Convex(R, Dim(E) + 1))
       /\ dom' = (A :> Dom(Dim(E), R, Whole(E))) @@ (B :> Dom(Dim(E), Obs(B), Whole(E))) @@ Drop(dom, {E})
Split == /\ Op = "split" /\ R = Full(Dim(B)) /\ Set(A, Dom(Dim(B), R, FALSE))

\* questions
Q == Step.q
Ask(x) == Op = x /\ UNCHANGED dom
IsEmpty  == Ask("empty?") /\ Holds(Q = 1 => Pts(A) = {}) /\ Holds((K.np = 0 /\ Whole(A) /\ Pts(A) = {}) => Q = 1)
IsDim    == Ask("dim") /\ Q = <<Dim(A), K.np>>
IsConvex == Ask("convex?") /\ Holds(Q = 1 => Convex(Pts(A), Dim(A) + 1))
IsEqual  == Ask("equal?") /\ Holds(Q = 1 => Pts(A) = Pts(B))
IsDisj   == Ask("disjoint?") /\ Holds(Q = 1 => Pts(A) \cap Pts(B) = {})
IsBound  == Ask("bounded?") /\ Holds((Q = 1 /\ Whole(A)) => \A pt \in Pts(A) : pt[N + 1] > K.lo /\ pt[N + 1] < K.hi)
SameBut(x, y, n) == \A j \in 1..Len(x) : j # n + 1 => x[j] = y[j]
AtMostOnce(p, n) == \A x \in p : \A y \in p : SameBut(x, y, n) => x = y
IsOtl    == Ask("otl?") /\ Holds(Q = 1 => AtMostOnce(Pts(A), N)) /\ Holds((K.np = 0 /\ Whole(A) /\ AtMostOnce(Pts(A), N)) => Q = 1)
IsConst  == Ask("const?") /\ Holds(Q[1] = 1 => \A pt \in Pts(A) : pt[N + 2] = Q[2])
SamePre(x, y, n) == \A j \in 1..n : x[j] = y[j]       \* parameters and the dimensions before n
Follows  == Ask("follows?")
            /\ Holds(Q <= 0 => \A x \in Pts(A) : \A y \in Pts(B) : SamePre(x, y, N) => x[N + 1] <= y[N + 1])
            /\ Holds(Q < 0  => \A x \in Pts(A) : \A y \in Pts(B) : SamePre(x, y, N) => x[N + 1] < y[N + 1])
(* sort: hs the domains, q the permutation (1 based).  Prec(x,y): on some     *)
(* common prefix x comes before y, on none not.                               *)
Prec(x, y) == /\ \E s \in Pts(x) : \E t \in Pts(y) : SamePre(s, t, N) /\ s[N + 1] < t[N + 1]
              /\ \A s \in Pts(x) : \A t \in Pts(y) : SamePre(s, t, N) => s[N + 1] < t[N + 1]
Sort == /\ Ask("sort")
        /\ ToSet(Q) = 1..Len(Step.hs) /\ Len(Q) = Len(Step.hs)
        /\ LET P == { xy \in (1..Len(Q)) \X (1..Len(Q)) : Prec(Step.hs[xy[1]], Step.hs[xy[2]]) }
               Pos(x) == CHOOSE j \in 1..Len(Q) : Q[j] = x
               Cyclic == \E x, y \in 1..Len(Q) : \/ {<<x, y>>, <<y, x>>} \subseteq P
                           \/ \E z \in 1..Len(Q) : \/ {<<x, y>>, <<y, z>>, <<z, x>>} \subseteq P
                              \/ \E w \in 1..Len(Q) : {<<x, y>>, <<y, z>>, <<z, w>>, <<w, x>>} \subseteq P
           IN Holds((\E x \in ToSet(Step.hs) : ~ Whole(x)) \/ Cyclic \/ \A xy \in P : Pos(xy[1]) < Pos(xy[2]))

Call == \/ Base \/ Copy \/ Free \/ Empty \/ Union \/ Inter \/ Diff \/ Extend \/ SimpU \/ Scatter
        \/ Project \/ Hull \/ Simplify \/ Cut \/ Split
        \/ IsEmpty \/ IsDim \/ IsConvex \/ IsEqual \/ IsDisj \/ IsBound \/ IsOtl \/ IsConst \/ Follows \/ Sort
\* what was observed is what the state says, for every handle that was looked at
Agrees == \A h \in DOMAIN dom' : HasObs(h) => Obs(h) = dom'[h].p

-----------------------------------------------------------------------------
Init == c \in 1..Len(Cases) /\ i = 1 /\ dom = <<>> /\ verdict = "run"
Good == /\ verdict = "run" /\ i <= Len(K.steps) /\ Call /\ Agrees
        /\ i' = i + 1 /\ UNCHANGED <<c, verdict>>
Bad == /\ verdict = "run" /\ i <= Len(K.steps) /\ ~ ENABLED Good
       /\ verdict' = "wrong" /\ PrintT(<<"VERDICT", K.id, <<i>>, "wrong", Step.op>>)
       /\ UNCHANGED <<c, i, dom>>
End == /\ verdict = "run" /\ i > Len(K.steps)
       /\ verdict' = "ok" /\ PrintT(<<"VERDICT", K.id, <<i>>, "ok", 0>>)
       /\ UNCHANGED <<c, i, dom>>
Next == Good \/ Bad \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
