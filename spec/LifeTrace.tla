----------------------------- MODULE LifeTrace -----------------------------
(* Histories recorded from the real library: each call must be one Lifecycle  *)
(* allows, and each result the one its label has in a run of its own.         *)
EXTENDS Lifecycle, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
K == Cases[c]
Rec == K.steps[n + 1]
\* the result the label has in a fresh process
Ref(lab) == LET j == CHOOSE j \in 1..Len(K.ref) : K.ref[j].lab = lab IN K.ref[j].out
Good(lab, out) == \/ lab = None
                  \/ lab = <<"balanced">> /\ out[1] = out[2] /\ out[3] = out[4] /\ out[5] = out[6]
                  \/ lab # None /\ lab[1] = "options" /\ out = lab[2]
                  \/ lab # None /\ lab[1] \notin {"balanced", "options"} /\ out = Ref(lab)
TInit == Init /\ c \in 1..Len(Cases) /\ verdict = "run"
Follow == /\ verdict = "run" /\ n < Len(K.steps)
          /\ Next /\ ev'.c = Rec.c /\ ev'.x = Rec.x /\ Good(ev'.lab, Rec.out) = TRUE
          /\ UNCHANGED <<c, verdict>>
Say(v) == /\ verdict' = v /\ PrintT(<<"VERDICT", K.id, <<n + 1>>, v, IF n < Len(K.steps) THEN Rec.c ELSE "end">>)
          /\ UNCHANGED <<vars, c>>
Depart == verdict = "run" /\ n < Len(K.steps) /\ ~ENABLED Follow /\ Say("differs")
Finish == verdict = "run" /\ n = Len(K.steps) /\ Say(IF Over /\ K.leak = 0 THEN "ok" ELSE "leak")
TNext == Follow \/ Depart \/ Finish
TSpec == TInit /\ [][TNext]_<<vars, c, verdict>>
=============================================================================
