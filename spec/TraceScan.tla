------------------------------ MODULE TraceScan ------------------------------
(* Trace validation: the sequence of statement instances that a run of the   *)
(* printed code (compiled C or Fortran, or an interpreter) has executed must *)
(* be a complete behaviour of Scan.  Each recorded event has to be an Exec   *)
(* step; the end of the trace has to be a state where Scan may stop.         *)
EXTENDS Scan, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c,      \* case number
          r,      \* run number: the parameter values of one recorded trace
          l,      \* next event of the trace
          todo, last, verdict
vars == <<c, r, l, todo, last, verdict>>

p     == Cases[c].ps[r]
Trace == Cases[c].traces[r]
Stm   == Cases[c].stmts

Init == /\ c \in 1..Len(Cases)
        /\ r \in 1..Len(Cases[c].ps)
        /\ InUnion(Cases[c].ctx, <<>>, Cases[c].ps[r])
        /\ l = 1 /\ todo = {} /\ last = <<>> /\ verdict = "load"

Load == /\ verdict = "load" /\ verdict' = "run"
        /\ todo' = Instances(Stm, p)
        /\ UNCHANGED <<c, r, l, last>>

Ev(k) == <<Trace[k][1], SubSeq(Trace[k], 2, Len(Trace[k]))>>

Exec == /\ verdict = "run" /\ l <= Len(Trace)
        /\ LET e == Ev(l)
           IN /\ MayExec(Stm, p, todo, last, e[1], e[2])
              /\ todo' = todo \ {e}
              /\ last' = Date(Stm[e[1]], e[2], p)
        /\ l' = l + 1 /\ UNCHANGED <<c, r, verdict>>

Reject == /\ verdict = "run" /\ l <= Len(Trace)
          /\ LET e == Ev(l)
             IN /\ ~ MayExec(Stm, p, todo, last, e[1], e[2])
                /\ verdict' = IF e \in todo THEN "order"
                              ELSE IF \E k \in 1..(l-1) : Ev(k) = e THEN "twice"
                              ELSE "extra"
                /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict', e>>)
          /\ UNCHANGED <<c, r, l, todo, last>>

Stop == /\ verdict = "run" /\ l = Len(Trace) + 1
        /\ verdict' = IF todo = {} THEN "ok" ELSE "missing"
        /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict',
                    IF todo = {} THEN <<>> ELSE CHOOSE x \in todo : TRUE>>)
        /\ UNCHANGED <<c, r, l, todo, last>>

Next == Load \/ Exec \/ Reject \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
