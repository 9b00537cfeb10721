----------------------------- MODULE LoopFilter -----------------------------
(* clast_filter: the loops of an AST that have a given iterator and whose     *)
(* statements are exactly, or among, the given ones; and the statements of    *)
(* the AST.  The AST (from the real generator) is walked node by node; under  *)
(* collects, for every loop, the statements inside.  At the end the answers   *)
(* the library gave to each question are compared.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c,      \* case
          pc,     \* current node (0: end of the current list)
          stk,    \* enclosing nodes, innermost first
          under,  \* loop -> statements inside, for the loops entered
          all,    \* the statements met
          q       \* the question being answered
vars == <<c, pc, stk, under, all, q>>

N(i) == Cases[c].nodes[i]
Init == /\ c \in 1..Len(Cases) /\ pc = Cases[c].entry /\ stk = <<>>
        /\ under = <<>> /\ all = {} /\ q = 0

\* (under is a function whose domain is the set of the loops entered)
Enter == /\ pc # 0 /\ N(pc).k \in {"for", "if", "blk"}
         /\ under' = IF N(pc).k = "for" THEN (pc :> {}) @@ under ELSE under
         /\ stk' = <<pc>> \o stk /\ pc' = N(pc).b
         /\ UNCHANGED <<c, all, q>>
Around == { stk[k] : k \in 1..Len(stk) }
User  == /\ pc # 0 /\ N(pc).k = "usr"
         /\ under' = [ l \in DOMAIN under |-> IF l \in Around THEN under[l] \cup {N(pc).s} ELSE under[l] ]
         /\ all' = all \cup {N(pc).s}
         /\ pc' = N(pc).nx /\ UNCHANGED <<c, stk, q>>
Ass   == /\ pc # 0 /\ N(pc).k = "ass" /\ pc' = N(pc).nx /\ UNCHANGED <<c, stk, under, all, q>>
Leave == /\ pc = 0 /\ stk # <<>> /\ pc' = N(stk[1]).nx /\ stk' = Tail(stk)
         /\ UNCHANGED <<c, under, all, q>>

Range(s) == { s[k] : k \in 1..Len(s) }
\* a question: iterator ("" any), type, statements (any: no condition)
Fits(x, l) == /\ x.it = "" \/ N(l).v = x.it
              /\ \/ x.any
                 \/ x.ty = "s" /\ under[l] \subseteq Range(x.st)
                 \/ x.ty = "e" /\ under[l] = Range(x.st)
Want(x) == { N(l).id : l \in { l \in DOMAIN under : Fits(x, l) } }
NoDup(s) == Cardinality(Range(s)) = Len(s)
Judge(x) == IF Range(x.loops) # Want(x) \/ ~ NoDup(x.loops) THEN "loops"
            ELSE IF Range(x.stmts) # all \/ ~ NoDup(x.stmts) THEN "stmts" ELSE "ok"
Answer == /\ pc = 0 /\ stk = <<>> /\ q < Len(Cases[c].qs)
          /\ q' = q + 1
          /\ LET x == Cases[c].qs[q + 1]
             IN PrintT(<<"VERDICT", Cases[c].id, <<q + 1>>, Judge(x),
                         <<Cardinality(Want(x))>> >>)
          /\ UNCHANGED <<c, pc, stk, under, all>>
Next == Enter \/ User \/ Ass \/ Leave \/ Answer
Spec == Init /\ [][Next]_vars
=============================================================================
