------------------------------- MODULE Reader -------------------------------
(* The input file as a dialogue: a writer supplies the items of a document   *)
(* one after the other, the reader consumes them in the order of the user's  *)
(* guide (chapter "CLooG Input") and decides.  At most one item is faulty.   *)
(*                                                                           *)
(*   out = "accept"  the reader must take the document as a program          *)
(*   out = "refuse"  it must stop with an error                              *)
(*   out = "any"     the guide does not say (the fault may be read as        *)
(*                   something else): accepting and refusing are both fine   *)
(*                                                                           *)
(* Nothing else is ever allowed: no crash, no endless loop, no silent stop.  *)
(* TLC enumerates all documents within the bounds; the check renders each of *)
(* them as text and gives it to the real program.                            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxPar, MaxStm, MaxDim, Scats

VARIABLES doc,    \* items supplied so far
          ph,     \* what the reader expects next
          np, n,  \* numbers of parameters and statements
          k,      \* statement being read
          dims,   \* dimensions of the domains read so far
          ns,     \* number of scattering dimensions (0: no scattering)
          flt,    \* a fault has occurred
          out
vars == <<doc, ph, np, n, k, dims, ns, flt, out>>

Init == /\ doc = <<>> /\ ph = "lang" /\ np = 0 /\ n = 0 /\ k = 0
        /\ dims = <<>> /\ ns = 0 /\ flt = FALSE /\ out = "accept"

Max(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x >= y
MaxIter == Max({ dims[j] : j \in 1..Len(dims) })

\* a good item: appended, the reader goes on
Give(it, next) == doc' = Append(doc, it @@ [f |-> "ok"]) /\ ph' = next /\ UNCHANGED <<flt, out>>
It(kind, a, b) == [k |-> kind, a |-> a, b |-> b]

\* a faulty item, which the document carries on after
Bad(it, f, next, verdict) ==
  /\ ~flt /\ flt' = TRUE
  /\ doc' = Append(doc, it @@ [f |-> f]) /\ ph' = next /\ out' = verdict

\* the end of the file, too early
Eof(verdict) == /\ ~flt /\ flt' = TRUE /\ out' = verdict
                /\ ph' = "end" /\ doc' = Append(doc, It("eof", 0, 0) @@ [f |-> "eof"])

Step(it, next, faults, eof) ==
  \/ Give(it, next)
  \/ \E fv \in faults : Bad(it, fv[1], next, fv[2])
  \/ Eof(eof)

\* The language: one letter; everything but f means C.
Lang == /\ ph = "lang"
        /\ \E l \in {"c", "f"} : Step(It("lang", l, 0), "ctx", { <<"word", "accept">> }, "refuse")
        /\ UNCHANGED <<np, n, k, dims, ns>>

\* "junk": letters where numbers are expected; "header": the numbers of the
\* header contradict each other; "cut": the last row is missing its last
\* entries and nothing follows
SetFaults == { <<"junk", "refuse">>, <<"header", "refuse">>, <<"word", "refuse">>,
               <<"norows", "any">>, <<"morerows", "any">>, <<"kind", "any">> }

Ctx == /\ ph = "ctx"
       /\ \E q \in 0..MaxPar :
            /\ np' = q
            /\ Step(It("ctx", 0, q), "popt", SetFaults, "refuse")
       /\ UNCHANGED <<n, k, dims, ns>>

\* Names: an option, then, if it is 1 and there is something to name, a line
\* with enough names.  (A line without a number is not an option: skipped.)
Opt(next, named, cnt) ==
  \/ Step(It("opt", 0, cnt), next, { <<"junk", "any">>, <<"negative", "any">> }, "refuse")
  \/ cnt > 0 /\ Step(It("opt", 1, cnt), named, { <<"junk", "any">> }, "refuse")
Names(next, cnt) ==
  Step(It("names", cnt, 0), next,
       { <<"none", "any">>, <<"more", "accept">>, <<"long", "accept">> }
       \union (IF cnt > 1 THEN { <<"few", "refuse">>, <<"hash", "refuse">> } ELSE {}), "refuse")

POpt   == ph = "popt"   /\ Opt("nst", "pnames", np)    /\ UNCHANGED <<np, n, k, dims, ns>>
PNames == ph = "pnames" /\ Names("nst", np)            /\ UNCHANGED <<np, n, k, dims, ns>>

Nst == /\ ph = "nst"
       /\ \E m \in 0..MaxStm :
            /\ n' = m /\ k' = 1
            /\ Step(It("nst", m, 0), IF m = 0 THEN "iopt" ELSE "dom",
                    { <<"junk", "refuse">>, <<"negative", "refuse">> } \union
                    (IF m > 0 THEN { <<"more", "refuse">>, <<"less", "any">> } ELSE {}),
                    "refuse")
       /\ UNCHANGED <<np, dims, ns>>

Dom == /\ ph = "dom"
       /\ \E d \in 0..MaxDim :
            /\ dims' = Append(dims, d)
            /\ Step(It("dom", d, np), "zero",
                    SetFaults \union IF np > 0 /\ d = 0 THEN { <<"fewcols", "refuse">> } ELSE {},
                    "refuse")
       /\ UNCHANGED <<np, n, k, ns>>

\* the line "0 0 0"
Zero == /\ ph = "zero"
        /\ LET nx == IF k < n THEN "dom" ELSE "iopt"
           IN Step(It("zero", 0, 0), nx, { <<"junk", "refuse">>, <<"few", "refuse">> }, "refuse")
        /\ k' = k + 1
        /\ UNCHANGED <<np, n, dims, ns>>

IOpt   == ph = "iopt"   /\ Opt("scnt", "inames", MaxIter) /\ UNCHANGED <<np, n, k, dims, ns>>
INames == ph = "inames" /\ Names("scnt", MaxIter)         /\ UNCHANGED <<np, n, k, dims, ns>>

\* the number of scattering functions: none, or one per statement
\* (a document that ends here has none)
SCnt == /\ ph = "scnt" /\ k' = 1
        /\ \/ ns' = 0 /\ Step(It("scnt", 0, 0), "end", {}, "accept")
           \/ \E s \in Scats :
                /\ n > 0
                /\ ns' = s
                /\ Step(It("scnt", n, 0), "scat",
                        { <<"more", "refuse">>, <<"junk", "any">> } \union
                        (IF n > 1 THEN { <<"less", "refuse">> } ELSE {}),
                        "accept")
        /\ UNCHANGED <<np, n, dims>>

Scat == /\ ph = "scat"
        /\ LET nx == IF k < n THEN "scat" ELSE "sopt"
           IN Step(It("scat", dims[k], ns), nx,
                   { <<"junk", "refuse">>, <<"header", "refuse">>, <<"word", "refuse">>, <<"norows", "any">>,
                     <<"morerows", "any">> }
                   \union (IF dims[k] + np > 0 THEN { <<"fewcols", "refuse">> } ELSE {})
                   \union (IF n > 1 THEN { <<"otherdim", "refuse">> } ELSE {}),
                   "refuse")
        /\ k' = k + 1
        /\ UNCHANGED <<np, n, dims, ns>>

SOpt   == ph = "sopt"   /\ Opt("end", "snames", ns) /\ UNCHANGED <<np, n, k, dims, ns>>
SNames == ph = "snames" /\ Names("end", ns)         /\ UNCHANGED <<np, n, k, dims, ns>>

Done == /\ ph = "end" /\ ph' = "over"
        /\ PrintT("DOC " \o ToJson([doc |-> doc, out |-> out, np |-> np, ns |-> ns]))
        /\ UNCHANGED <<doc, np, n, k, dims, ns, flt, out>>

Next == Lang \/ Ctx \/ POpt \/ PNames \/ Nst \/ Dom \/ Zero \/ IOpt \/ INames
        \/ SCnt \/ Scat \/ SOpt \/ SNames \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ out \in {"accept", "refuse", "any"}
          /\ Len(dims) <= n
          /\ (ph \in {"zero", "inames", "scat", "sopt", "snames"} => n >= 1)
\* one fault at most
OneFault == \A a, b \in 1..Len(doc) : doc[a].f # "ok" /\ doc[b].f # "ok" => a = b
\* every document is eventually decided
Decided == <>(ph = "over")
=============================================================================
