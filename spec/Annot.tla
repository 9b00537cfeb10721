-------------------------------- MODULE Annot --------------------------------
(* The printed C program, line by line, for an AST whose loops carry the      *)
(* annotations of a parallelizer (clast.h: parallel, private_vars,            *)
(* reduction_vars, time_var_name, user_directive).  The AST is walked; every  *)
(* step owes the lines of its construct, in this order, and nothing else may  *)
(* be printed.  ev is the sequence of the lines of the real text, reduced to  *)
(* what they are (see checks/annot.py); o how many were accounted for.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, stk, o, verdict
vars == <<c, pc, stk, o, verdict>>
N(i) == Cases[c].nodes[i]
Ev == Cases[c].ev

Init == /\ c \in 1..Len(Cases) /\ pc = Cases[c].entry /\ stk = <<>> /\ o = 0 /\ verdict = "run"

OMP(l)  == l.par % 2 = 1
MPI(l)  == (l.par \div 2) % 2 = 1
VEC(l)  == (l.par \div 4) % 2 = 1
USER(l) == (l.par \div 8) % 2 = 1

Clauses(l) == (IF l.pv = "" THEN "" ELSE " private(" \o l.pv \o ")") \o
              (IF l.rd = "" THEN "" ELSE " reduction(" \o l.rd \o ")")
Directive(l) == IF USER(l) /\ ~ MPI(l) /\ l.ud # "" THEN l.ud ELSE "omp parallel for"
Pragma(l) == "pragma " \o Directive(l) \o Clauses(l)

\* the lines in front of the loop: how its bounds are computed and who runs it
Header(l) ==
  (IF l.tv = "" THEN <<>> ELSE <<"start " \o l.tv>>) \o
  (CASE MPI(l) -> <<"set _lb_dist", "set _ub_dist", "dist">> \o (IF OMP(l) THEN <<Pragma(l)>> ELSE <<>>)
     [] ~ MPI(l) /\ OMP(l) -> <<"set lbp", "set ubp", Pragma(l)>>
     [] ~ MPI(l) /\ ~ OMP(l) /\ VEC(l) -> <<"set lbv", "set ubv", "pragma ivdep", "pragma vector always">>
     [] OTHER -> <<>>) \o
  << "for " \o l.v \o " " \o ToString(l.st) \o " " \o
     (CASE MPI(l) \/ OMP(l) -> "lbp ubp"
        [] ~ MPI(l) /\ ~ OMP(l) /\ VEC(l) -> "lbv ubv"
        [] OTHER -> "own own") >>
Footer(l) == <<"end">> \o (IF l.tv = "" THEN <<>> ELSE <<"stop " \o l.tv>>)

Opens(l) == CASE l.k = "for" -> Header(l) [] l.k = "if" -> <<"if">> [] l.k = "blk" -> <<"{">>
              [] l.k = "ass" -> <<"ass " \o l.v>> [] l.k = "usr" -> <<"stmt " \o ToString(l.s)>>
Closes(l) == IF l.k = "for" THEN Footer(l) ELSE <<"end">>

Owed(x) == o + Len(x) <= Len(Ev) /\ SubSeq(Ev, o + 1, o + Len(x)) = x
Due == IF pc # 0 THEN Opens(N(pc)) ELSE IF stk # <<>> THEN Closes(N(stk[1])) ELSE <<>>

Open  == /\ verdict = "run" /\ pc # 0 /\ Owed(Due) /\ o' = o + Len(Due)
         /\ IF N(pc).k \in {"for", "if", "blk"} THEN stk' = <<pc>> \o stk /\ pc' = N(pc).b
                                                ELSE pc' = N(pc).nx /\ UNCHANGED stk
         /\ UNCHANGED <<c, verdict>>
Close == /\ verdict = "run" /\ pc = 0 /\ stk # <<>> /\ Owed(Due) /\ o' = o + Len(Due)
         /\ pc' = N(stk[1]).nx /\ stk' = Tail(stk) /\ UNCHANGED <<c, verdict>>
Bad   == /\ verdict = "run" /\ ~ Owed(Due) /\ verdict' = "lines"
         /\ PrintT(<<"VERDICT", Cases[c].id, <<>>, verdict', <<o + 1>> >>)
         /\ UNCHANGED <<c, pc, stk, o>>
Stop  == /\ verdict = "run" /\ pc = 0 /\ stk = <<>>
         /\ verdict' = IF o = Len(Ev) THEN "ok" ELSE "surplus"
         /\ PrintT(<<"VERDICT", Cases[c].id, <<>>, verdict', <<o + 1>> >>)
         /\ UNCHANGED <<c, pc, stk, o>>
Next == Open \/ Close \/ Bad \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
