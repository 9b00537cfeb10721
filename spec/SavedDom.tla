------------------------------ MODULE SavedDom ------------------------------
(* The AST machine with the domains a caller asked to keep (save_domains):    *)
(* every user statement and every loop over a scattering dimension carries    *)
(* the set of dates at which it executes.  seen records, while the AST runs,  *)
(* the dates at which statements execute, for each node; at the end it is     *)
(* compared with the saved domains.                                           *)
EXTENDS AstScan

VARIABLE seen
svars == <<vars, seen>>

Pick(dt) == [ k \in 1..Len(Cases[c].keep) |-> dt[Cases[c].keep[k]] ]
SInit == Init /\ seen = [ k \in 1..Len(Cases[c].nodes) |-> {} ]
\* the statement executed and the loops around it see the date
Around == {pc} \cup { stk[k][1] : k \in 1..Len(stk) }
SUser == /\ n <= MaxSteps /\ Scoped /\ User
         /\ seen' = [ k \in DOMAIN seen |-> IF k \in Around THEN seen[k] \cup {Pick(last')} ELSE seen[k] ]
AtUser == verdict = "run" /\ pc # 0 /\ N(pc).k = "usr"
SOther == Steps /\ ~(AtUser /\ verdict' = "run") /\ UNCHANGED seen

PI == CHOOSE k \in 1..Len(Cases[c].ps) : Cases[c].ps[k] = p
Saved(k) == LET s == N(k).dp[PI] IN { s[j] : j \in 1..Len(s) }
\* a domain of fewer dimensions speaks about the first ones
Upto(S, D) == IF D = {} THEN S ELSE LET m == Len(CHOOSE x \in D : TRUE) IN { SubSeq(x, 1, m) : x \in S }
HasDom(k) == Len(N(k).dp) > 0
OK(k) == CASE N(k).k = "usr" -> HasDom(k) /\ Upto(seen[k], Saved(k)) = Saved(k)
           [] N(k).k = "for" /\ HasDom(k) -> Upto(seen[k], Saved(k)) \subseteq Saved(k)
                   /\ (Cases[c].exact => Saved(k) = Upto(seen[k], Saved(k)))
           [] OTHER -> TRUE
Wrong == { k \in DOMAIN seen : ~ OK(k) }
SStop == /\ n <= MaxSteps /\ Run /\ pc = 0 /\ stk = <<>>
         /\ verdict' = IF todo # {} THEN "missing" ELSE IF Wrong = {} THEN "ok" ELSE "saved"
         /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict', IF Wrong = {} THEN <<>> ELSE
                      LET k == CHOOSE k \in Wrong : TRUE IN <<N(k).k, k>> >>)
         /\ UNCHANGED <<pc, stk, env, seen>> /\ Same
SNext == SUser \/ SOther \/ SStop
SSpec == SInit /\ [][SNext]_svars
=============================================================================
