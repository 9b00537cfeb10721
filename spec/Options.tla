------------------------------- MODULE Options -------------------------------
(* The command line: read from left to right, the last setting of an option  *)
(* wins, options and the input file may come in any order.  One step is one  *)
(* option (with its value) or one file name.  The line ends in "ok" (the     *)
(* generator runs with opt, in, outf), "info" (help or version was asked for *)
(* and there is nothing to generate) or "error".                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,       \* options and files are read while the line has fewer words
          MinErr        \* no error, and no end, before that many words (for simulation)

(* options with an integer value, and their defaults *)
Valued == [ l |-> -1, f |-> 1, stop |-> -1, strides |-> 0, sh |-> 0, first_unroll |-> -1, otl |-> 1,
            esp |-> 1, fsp |-> 1, block |-> 0, compilable |-> 0, callable |-> 0,
            exact_clast_filtering |-> 0 ]
Flag   == [ x \in { "leaks", "backtrack", "override", "structure", "noblocks", "noscalars", "nosimplify",
                    "quiet" } |-> 0 ]
Defaults == Valued @@ Flag
Dash(o) == CASE o = "first_unroll" -> "-first-unroll"
             [] o = "exact_clast_filtering" -> "-exact-clast-filtering"
             [] OTHER -> "-" \o o

Values == { <<"0", 0>>, <<"1", 1>>, <<"2", 2>>, <<"-1", -1>>, <<"+3", 3>>, <<"007", 7>> }
NoValues == { "x", "1x", "", "-", "1.5", "--" }

(* flags: the words of the command line and what they set *)
Flags == { << "-leaks", {<<"leaks", 1>>} >>,
           << "-backtrack", {<<"backtrack", 1>>} >>,
           << "-nobacktrack", {<<"backtrack", 0>>} >>,
           << "-bipbip", {<<"backtrack", 0>>} >>,
           << "-override", {<<"override", 1>>} >>,
           << "-struct", {<<"structure", 1>>} >>,
           << "-structure", {<<"structure", 1>>} >>,
           << "-noblocks", {<<"noblocks", 1>>} >>,
           << "-noscalars", {<<"noscalars", 1>>} >>,
           << "-nosimplify", {<<"nosimplify", 1>>} >>,
           << "-loopo", {<<"esp", 0>>, <<"block", 1>>} >>,
           << "-q", {<<"quiet", 1>>} >>,
           << "--quiet", {<<"quiet", 1>>} >> }
Unknown == { "-foo", "-", "--strides", "-L", "-strides1", "-quiet" }

VARIABLES line,   \* the command line so far
          opt, in, outf,
          helps, versions, warnings,
          res
vars == <<line, opt, in, outf, helps, versions, warnings, res>>

\* (a line may well begin with the input file: half of the behaviours do)
Init == /\ \/ line = <<>> /\ in = ""
           \/ line = <<"one.cloog">> /\ in = "one.cloog"
        /\ opt = Defaults /\ outf = "stdout"
        /\ helps = 0 /\ versions = 0 /\ warnings = 0 /\ res = "reading"

Word(ws) == res = "reading" /\ Len(line) < MaxLen /\ line' = line \o ws
Late == Len(line) >= MinErr
Rest == UNCHANGED <<helps, versions, warnings>>
Go == res' = "reading"

SetValue == \E o \in DOMAIN Valued, v \in Values :
              /\ Word(<<Dash(o), v[1]>>)
              /\ opt' = [opt EXCEPT ![o] = v[2]]
              /\ UNCHANGED <<in, outf>> /\ Rest /\ Go

BadValue == \E o \in DOMAIN Valued, v \in NoValues :
              /\ Late /\ Word(<<Dash(o), v>>)
              /\ res' = "error"
              /\ UNCHANGED <<opt, in, outf>> /\ Rest

\* the line ends where a value is expected
LacksValue == \E o \in { Dash(x) : x \in DOMAIN Valued } \union {"-o"} :
              /\ Late /\ Word(<<o>>) /\ res' = "error"
              /\ UNCHANGED <<opt, in, outf>> /\ Rest

SetFlag == \E g \in Flags :
             /\ Word(<<g[1]>>)
             /\ opt' = [ x \in DOMAIN opt |->
                           IF \E s \in g[2] : s[1] = x THEN (CHOOSE s \in g[2] : s[1] = x)[2] ELSE opt[x] ]
             /\ UNCHANGED <<in, outf>> /\ Rest /\ Go

Help == \E w \in {"-h", "--help"} :
          Word(<<w>>) /\ helps' = helps + 1 /\ Go /\ UNCHANGED <<opt, in, outf, versions, warnings>>
Version == \E w \in {"-v", "--version"} :
          Word(<<w>>) /\ versions' = versions + 1 /\ Go /\ UNCHANGED <<opt, in, outf, helps, warnings>>

\* an unknown option is reported (unless -q was given before) and ignored
Ignored == \E w \in Unknown :
             /\ Word(<<w>>)
             /\ warnings' = IF opt.quiet = 1 THEN warnings ELSE warnings + 1
             /\ UNCHANGED <<opt, in, outf, helps, versions>> /\ Go

\* OpenScop support is not compiled in
OpenScop == Late /\ Word(<<"-openscop">>) /\ res' = "error" /\ UNCHANGED <<opt, in, outf>> /\ Rest

Output == \E w \in {"stdout", "a.out.c", "b.out.c"} :
            Word(<<"-o", w>>) /\ outf' = w /\ UNCHANGED <<opt, in>> /\ Rest /\ Go
NoOutput == Late /\ Word(<<"-o", "no/such/dir/x.c">>) /\ res' = "error" /\ UNCHANGED <<opt, in, outf>> /\ Rest

Input == \E w \in {"stdin", "one.cloog", "two.cloog"} :
           /\ Word(<<w>>)
           /\ in = "" \/ Late
           /\ IF in = "" THEN in' = w /\ Go ELSE res' = "error" /\ UNCHANGED in
           /\ UNCHANGED <<opt, outf>> /\ Rest
NoInput == Late /\ Word(<<"missing.cloog">>) /\ res' = "error" /\ UNCHANGED <<opt, in, outf>> /\ Rest

\* the end of the line
End == /\ res = "reading" /\ (Late \/ Len(line) >= MaxLen)
       /\ res' = IF in # "" THEN "ok" ELSE IF helps + versions > 0 THEN "info" ELSE "error"
       /\ UNCHANGED <<line, opt, in, outf>> /\ Rest

Say == /\ res \in {"ok", "info", "error"}
       /\ PrintT("LINE " \o ToJson([line |-> line, opt |-> opt, in |-> in, outf |-> outf, helps |-> helps,
                                    versions |-> versions, warnings |-> warnings, res |-> res]))
       /\ res' = res \o "." /\ UNCHANGED <<line, opt, in, outf>> /\ Rest

Next == SetValue \/ BadValue \/ LacksValue \/ SetFlag \/ Help \/ Version \/ Ignored \/ OpenScop
        \/ Output \/ NoOutput \/ Input \/ NoInput \/ End \/ Say
Spec == Init /\ [][Next]_vars

TypeOK == /\ DOMAIN opt = DOMAIN Defaults
          /\ \A x \in DOMAIN Flag : opt[x] \in {0, 1}
          /\ warnings <= Len(line) /\ helps + versions <= Len(line)
\* an option that the line does not mention keeps its default
Untouched == \A o \in DOMAIN Valued \ {"esp", "block"} :
               (\A k \in 1..Len(line) : line[k] # Dash(o)) => opt[o] = Valued[o]
\* generation needs an input
NeedsInput == res = "ok" => in # ""
=============================================================================
