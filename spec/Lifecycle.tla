----------------------------- MODULE Lifecycle -----------------------------
(* What a caller of the library holds, and what each call takes and gives.    *)
(* States own everything made with them; options, inputs, programs and trees  *)
(* belong to a state; some calls consume their operands.  Every object also   *)
(* carries what it was made from, so that each visible result has a label: a  *)
(* result is a function of its label and of nothing else, whatever happened   *)
(* before and whatever else is alive.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, NF,      \* number of calls before everything is freed; input files 0..NF-1
          NS, NO, NI, NP, NT, ND, NU

VARIABLES st,   \* live states: handle -> kind
          op,   \* options:  handle -> [s, cfg]
          dm,   \* domains:  handle -> [s, k]
          un,   \* unions of statements: handle -> [s, pn, it, sc, sts]
          in,   \* inputs:   handle -> [s, f]
          pr,   \* programs: handle -> [s, lab]
          tr,   \* trees:    handle -> [s, lab]
          ev,   \* the last call: [c, x, lab]
          n, closing
vars == <<st, op, dm, un, in, pr, tr, ev, n, closing>>

Values == [ f |-> {1, 2, -1}, l |-> {-1, 2}, strides |-> {0, 1}, sh |-> {0, 1}, esp |-> {0, 1}, fsp |-> {1, 2}, otl |-> {0, 1},
            block |-> {0, 1}, noscalars |-> {0, 1}, noblocks |-> {0, 1}, save_domains |-> {0, 1},
            first_unroll |-> {-1, 2}, language |-> {0, 1}, backtrack |-> {0, 1} ]
Default == [ f |-> 1, l |-> -1, strides |-> 0, sh |-> 0, esp |-> 1, fsp |-> 1, otl |-> 1, block |-> 0, noscalars |-> 0,
             noblocks |-> 0, save_domains |-> 0, first_unroll |-> -1, language |-> 0, backtrack |-> 0 ]
\* what an input was made from: <<file>>, or Flat of a union and its context
Lang(f) == f[1] % 2       \* the language named in the file: 0 C, 1 Fortran
NScat(f) == IF Len(f) = 1 THEN (IF f[1] >= 2 THEN 3 ELSE 0)       \* its scattering dimensions
            ELSE IF f[Len(f)] > 0 THEN 2 ELSE 0
\* the domains a caller makes: 0 and 1 are contexts, the others have these dimensions
DimOf == <<1, 2, 1, 2>>
DDim(k) == IF k < 2 THEN 0 ELSE DimOf[k - 1]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
NIter(u) == Max({ 0 } \cup { DDim(u.sts[j][1]) : j \in 1..Len(u.sts) })
NSch(u) == IF u.sts # <<>> /\ u.sts[1][4] > 0 THEN 2 ELSE 0
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Flat(u, k) == <<100, k, Len(u.pn)>> \o u.pn \o <<Len(u.it)>> \o u.it \o <<Len(u.sc)>> \o u.sc \o Cat(u.sts)
\* generating adjusts -l in the options it is given (see the manual, -override)
Limit(cf, k) == LET up == IF 0 <= cf.l /\ cf.l < k THEN k ELSE cf.l
                IN  [cf EXCEPT !.l = IF (cf.f > 1 \/ cf.f < 0) /\ (up > k \/ up < 0) THEN k ELSE up]
Generated(o, f) == op' = [op EXCEPT ![o].cfg = Limit(@, NScat(f))]

Set(g, h, v) == (h :> v) @@ g
Drop(g, h) == [ x \in DOMAIN g \ {h} |-> g[x] ]
Free(g, k) == LET S == (0..k-1) \ DOMAIN g IN IF S = {} THEN {} ELSE {CHOOSE x \in S : \A y \in S : x <= y}
E(c, x, lab) == ev' = [c |-> c, x |-> x, lab |-> lab]
None == <<>>
Open == ~closing /\ n < MaxLen

Init == st = <<>> /\ op = <<>> /\ dm = <<>> /\ un = <<>> /\ in = <<>> /\ pr = <<>> /\ tr = <<>>
        /\ ev = [c |-> "start", x |-> <<>>, lab |-> None] /\ n = 0 /\ closing = FALSE
Tick == n' = n + 1 /\ closing' = (closing \/ n + 1 >= MaxLen)

-----------------------------------------------------------------------------
NewState == Open /\ \E s \in Free(st, NS), k \in {"state", "islstate"} :
            st' = Set(st, s, k) /\ E(k, <<s>>, None) /\ UNCHANGED <<op, in, pr, tr, dm, un>>
Of(g, s) == { h \in DOMAIN g : g[h].s = s }
\* a state is freed last; by then everything it counted is balanced
FreeState == \E s \in DOMAIN st :
             /\ (closing \/ n > MaxLen \div 2)
             /\ Of(op, s) = {} /\ Of(dm, s) = {} /\ Of(un, s) = {} /\ Of(in, s) = {} /\ Of(pr, s) = {} /\ Of(tr, s) = {}
             /\ st' = Drop(st, s) /\ E("sfree", <<s>>, <<"balanced">>) /\ UNCHANGED <<op, in, pr, tr, dm, un>>

NewOptions == Open /\ \E s \in DOMAIN st, o \in Free(op, NO) :
              op' = Set(op, o, [s |-> s, cfg |-> Default]) /\ E("options", <<o, s>>, None)
              /\ UNCHANGED <<st, in, pr, tr, dm, un>>
Choices == UNION { { <<k, v>> : v \in Values[k] } : k \in DOMAIN Values }
SetOption == Open /\ \E o \in DOMAIN op, kv \in Choices :
             /\ kv[2] # op[o].cfg[kv[1]]
             /\ op' = [op EXCEPT ![o].cfg[kv[1]] = kv[2]] /\ E("opt", <<o, kv[1], kv[2]>>, None)
             /\ UNCHANGED <<st, in, pr, tr, dm, un>>
Look == Open /\ \E o \in DOMAIN op : E("oshow", <<o>>, <<"options", op[o].cfg>>) /\ UNCHANGED <<st, op, in, pr, tr, dm, un>>
FreeOptions == \E o \in DOMAIN op : (closing \/ Cardinality(DOMAIN op) = NO)
               /\ op' = Drop(op, o) /\ E("ofree", <<o>>, None) /\ UNCHANGED <<st, in, pr, tr, dm, un>>

Read == Open /\ \E o \in DOMAIN op, i \in Free(in, NI), f \in 0..NF-1 :
        /\ in' = Set(in, i, [s |-> op[o].s, f |-> <<f>>])
        /\ op' = [op EXCEPT ![o].cfg.language = Lang(<<f>>)]
        /\ E("iread", <<i, o, f>>, None) /\ UNCHANGED <<st, pr, tr, dm, un>>
\* inputs made by calls: domains are collected in a union, with names
NewDomain == Open /\ \E s \in DOMAIN st, d \in Free(dm, ND), k \in 0..5 :
             dm' = Set(dm, d, [s |-> s, k |-> k]) /\ E("dnew", <<d, s, k>>, None)
             /\ UNCHANGED <<st, op, un, in, pr, tr>>
CopyDomain == Open /\ \E b \in DOMAIN dm, d \in Free(dm, ND) :
              dm' = Set(dm, d, dm[b]) /\ E("dcopy", <<d, b>>, None) /\ UNCHANGED <<st, op, un, in, pr, tr>>
FreeDomain == \E d \in DOMAIN dm : (closing \/ Cardinality(DOMAIN dm) = ND)
              /\ dm' = Drop(dm, d) /\ E("dfree", <<d>>, None) /\ UNCHANGED <<st, op, un, in, pr, tr>>
NewUnion == Open /\ \E s \in DOMAIN st, u \in Free(un, NU) :
            un' = Set(un, u, [s |-> s, pn |-> <<>>, it |-> <<>>, sc |-> <<>>, sts |-> <<>>])
            /\ E("unew", <<u, s>>, None) /\ UNCHANGED <<st, op, dm, in, pr, tr>>
\* consumes the domain (and the scattering made for it); iterators are named afterwards
AddStatement == Open /\ \E u \in DOMAIN un, d \in DOMAIN dm, nm \in 0..2, us \in 0..1, sc \in 0..2 :
                /\ un[u].s = dm[d].s /\ dm[d].k >= 2 /\ un[u].it = <<>> /\ un[u].sc = <<>> /\ Len(un[u].sts) < 3
                /\ (un[u].sts # <<>> => (sc > 0) = (NSch(un[u]) > 0))
                /\ un' = [un EXCEPT ![u].sts = Append(@, <<dm[d].k, nm, us, sc>>)]
                /\ dm' = Drop(dm, d) /\ E("uadd", <<u, d, nm, us, sc, dm[d].k, dm[d].s>>, None)
                /\ UNCHANGED <<st, op, in, pr, tr>>
\* names all of a kind; afterwards single ones may be replaced
Name == Open /\ \E u \in DOMAIN un, k \in {"pn", "it", "sc"}, v \in 0..2 :
        LET m == IF k = "pn" THEN 1 ELSE IF k = "it" THEN NIter(un[u]) ELSE NSch(un[u]) IN
        /\ m > 0 /\ un[u][k] = <<>>
        /\ un' = [un EXCEPT ![u][k] = [ j \in 1..m |-> v ]] /\ E("names", <<u, k, m, v>>, None)
        /\ UNCHANGED <<st, op, dm, in, pr, tr>>
Rename == Open /\ \E u \in DOMAIN un, k \in {"pn", "it", "sc"}, v \in 0..2 : \E j \in 1..Len(un[u][k]) :
          /\ un' = [un EXCEPT ![u][k][j] = v] /\ E("rename", <<u, k, j - 1, v>>, None)
          /\ UNCHANGED <<st, op, dm, in, pr, tr>>
FreeUnion == \E u \in DOMAIN un : (closing \/ Cardinality(DOMAIN un) = NU)
             /\ un' = Drop(un, u) /\ E("udfree", <<u>>, None) /\ UNCHANGED <<st, op, dm, in, pr, tr>>
\* consumes the context and the union
MakeInput == Open /\ \E u \in DOMAIN un, d \in DOMAIN dm, i \in Free(in, NI) :
             /\ un[u].s = dm[d].s /\ dm[d].k < 2 /\ un[u].sts # <<>>
             /\ in' = Set(in, i, [s |-> un[u].s, f |-> Flat(un[u], dm[d].k)])
             /\ un' = Drop(un, u) /\ dm' = Drop(dm, d) /\ E("input", <<i, d, u>>, None)
             /\ UNCHANGED <<st, op, pr, tr>>
Dump == Open /\ \E i \in DOMAIN in, o \in DOMAIN op :
        /\ in[i].s = op[o].s
        /\ E("idump", <<i, o>>, <<"dump", in[i].f, op[o].cfg.language>>) /\ UNCHANGED <<st, op, in, pr, tr, dm, un>>
FreeInput == \E i \in DOMAIN in : (closing \/ Cardinality(DOMAIN in) = NI)
             /\ in' = Drop(in, i) /\ E("ifree", <<i>>, None) /\ UNCHANGED <<st, op, pr, tr, dm, un>>

\* consumes the input
Generate == \E i \in DOMAIN in, o \in DOMAIN op, a \in Free(tr, NT) :
            /\ Open /\ in[i].s = op[o].s
            /\ tr' = Set(tr, a, [s |-> in[i].s, lab |-> <<"gen", in[i].f, op[o].cfg>>])
            /\ Generated(o, in[i].f)
            /\ in' = Drop(in, i) /\ E("gen", <<a, i, o>>, None) /\ UNCHANGED <<st, pr, dm, un>>
\* consumes the input (its context and statements)
NewProgram == \E i \in DOMAIN in, o \in DOMAIN op, p \in Free(pr, NP) :
              /\ Open /\ in[i].s = op[o].s
              /\ pr' = Set(pr, p, [s |-> in[i].s, lab |-> <<"prog", in[i].f, op[o].cfg>>, done |-> FALSE])
              /\ in' = Drop(in, i) /\ E("iprog", <<p, i, o>>, None) /\ UNCHANGED <<st, op, tr, dm, un>>
ProgGenerate == \E p \in DOMAIN pr, o \in DOMAIN op :
                /\ Open /\ pr[p].s = op[o].s /\ ~pr[p].done
                /\ pr' = [pr EXCEPT ![p].done = TRUE, ![p].lab = Append(@, op[o].cfg)]
                /\ Generated(o, pr[p].lab[2])
                /\ E("pgen", <<p, o>>, None) /\ UNCHANGED <<st, in, tr, dm, un>>
\* does not consume the program: it can be asked for any number of trees
ProgTree == \E p \in DOMAIN pr, o \in DOMAIN op, a \in Free(tr, NT) :
            /\ Open /\ pr[p].s = op[o].s /\ pr[p].done
            /\ tr' = Set(tr, a, [s |-> pr[p].s, lab |-> Append(pr[p].lab, op[o].cfg)])
            /\ E("pclast", <<a, p, o>>, None) /\ UNCHANGED <<st, op, in, pr, dm, un>>
\* prints in the language the program was made with, and the options then say so, too
ProgPrint == \E p \in DOMAIN pr, o \in DOMAIN op :
             /\ Open /\ pr[p].s = op[o].s /\ pr[p].done
             /\ op' = [op EXCEPT ![o].cfg.language = pr[p].lab[3].language]
             /\ E("ptext", <<p, o>>, <<"ptext", pr[p].lab, op'[o].cfg>>) /\ UNCHANGED <<st, in, pr, tr, dm, un>>
FreeProgram == \E p \in DOMAIN pr : (closing \/ pr[p].done)
               /\ pr' = Drop(pr, p) /\ E("pfree", <<p>>, None) /\ UNCHANGED <<st, op, in, tr, dm, un>>

Show == \E a \in DOMAIN tr : E("ast", <<a>>, <<"ast", tr[a].lab>>) /\ ~closing /\ UNCHANGED <<st, op, in, pr, tr, dm, un>>
PrintTree == \E a \in DOMAIN tr, o \in DOMAIN op :
         /\ Open /\ tr[a].s = op[o].s
         /\ E("text", <<a, o>>, <<"text", tr[a].lab, op[o].cfg>>) /\ UNCHANGED <<st, op, in, pr, tr, dm, un>>
FreeTree == \E a \in DOMAIN tr : tr' = Drop(tr, a) /\ E("afree", <<a>>, None) /\ UNCHANGED <<st, op, in, pr, dm, un>>

Call == \/ NewState \/ FreeState \/ NewOptions \/ SetOption \/ Look \/ FreeOptions \/ Read \/ NewDomain \/ CopyDomain \/ FreeDomain
        \/ NewUnion \/ AddStatement \/ Name \/ Rename \/ FreeUnion \/ MakeInput \/ Dump \/ FreeInput
        \/ Generate \/ NewProgram \/ ProgGenerate \/ ProgTree \/ ProgPrint \/ FreeProgram
        \/ Show \/ PrintTree \/ FreeTree
Nothing == DOMAIN st = {}
Over == closing /\ Nothing

Next == ~Over /\ Call /\ Tick
Spec == Init /\ [][Next]_vars

\* everything alive belongs to a live state
Owned == \A g \in {op, dm, un, in, pr, tr} : \A h \in DOMAIN g : g[h].s \in DOMAIN st
=============================================================================
