------------------------------ MODULE LifeGen ------------------------------
(* complete histories of Lifecycle, written out for replay *)
EXTENDS Lifecycle
VARIABLE hist
\* (for simulation: one setting at a time, so that settings do not crowd out the other calls)
OneChoice == { RandomElement({ <<k, RandomElement(Values[k])>> : k \in DOMAIN Values }) }
GInit == Init /\ hist = <<>>
GNext == /\ Next /\ hist' = Append(hist, [c |-> ev'.c, x |-> ev'.x, lab |-> ev'.lab])
         /\ (closing' /\ DOMAIN st' = {}) => PrintT("HIST " \o ToJson(hist'))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
