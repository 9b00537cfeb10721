------------------------------- MODULE AstScan -------------------------------
(* The product of the AST machine (Clast) and the promise (Scan): every      *)
(* "user statement" step of the AST must be an Exec step of Scan, and the    *)
(* AST may only terminate where Scan may.  The cases (program description +  *)
(* AST produced by the real CLooG + parameter values) are read from a file;  *)
(* TLC explores, for every case and every admissible parameter value, the    *)
(* whole run.                                                                *)
EXTENDS Scan, Clast, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
MaxSteps == 60000

VARIABLES c,      \* case number
          p,      \* parameter values
          pc,     \* current node (0: end of the current list)
          stk,    \* enclosing nodes, innermost first: << <<node, ub>>, ... >>
          env,    \* values of the variables in scope
          todo, last, n, verdict
vars == <<c, p, pc, stk, env, todo, last, n, verdict>>

N(i) == Cases[c].nodes[i]
Stm  == Cases[c].stmts

Init ==
  /\ c \in 1..Len(Cases)
  /\ p \in { Cases[c].ps[k] : k \in 1..Len(Cases[c].ps) }
  /\ InUnion(Cases[c].ctx, <<>>, p)
  /\ pc = Cases[c].entry
  /\ stk = <<>>
  /\ env = [ x \in { Cases[c].pn[k] : k \in 1..Len(p) } |->
               p[CHOOSE k \in 1..Len(p) : Cases[c].pn[k] = x] ]
  /\ todo = {}
  /\ last = <<>>
  /\ n = 0
  /\ verdict = "load"

\* the instances to execute are determined first
Load == /\ verdict = "load" /\ verdict' = "run"
        /\ todo' = Instances(Stm, p)
        /\ UNCHANGED <<c, p, pc, stk, env, last, n>>

Same == UNCHANGED <<c, p, todo, last>>
Run  == verdict = "run" /\ n' = n + 1
Keep == verdict' = "run" /\ Same

Assign == /\ Run /\ pc # 0 /\ N(pc).k = "ass"
          /\ env' = Bind(env, N(pc).v, Eval(N(pc).e, env))
          /\ pc' = N(pc).nx /\ UNCHANGED stk /\ Keep

Block == /\ Run /\ pc # 0 /\ N(pc).k = "blk"
         /\ pc' = N(pc).b /\ stk' = << <<pc, 0>> >> \o stk
         /\ UNCHANGED env /\ Keep

Guard == /\ Run /\ pc # 0 /\ N(pc).k = "if"
         /\ IF GuardHolds(N(pc), env)
              THEN pc' = N(pc).b /\ stk' = << <<pc, 0>> >> \o stk
              ELSE pc' = N(pc).nx /\ UNCHANGED stk
         /\ UNCHANGED env /\ Keep

ForEnter == /\ Run /\ pc # 0 /\ N(pc).k = "for"
            /\ LET lb == Eval(N(pc).lb, env)
                   ub == Eval(N(pc).ub, env)
               IN IF lb <= ub
                    THEN /\ env' = Bind(env, N(pc).v, lb)
                         /\ pc' = N(pc).b /\ stk' = << <<pc, ub>> >> \o stk
                    ELSE /\ pc' = N(pc).nx /\ UNCHANGED <<stk, env>>
            /\ Keep

\* end of a list: next iteration of the enclosing loop, or leave the node
Return == /\ Run /\ pc = 0 /\ stk # <<>>
          /\ LET f  == stk[1]
                 nd == N(f[1])
             IN IF nd.k = "for" /\ env[nd.v] + nd.st <= f[2]
                  THEN /\ env' = Bind(env, nd.v, env[nd.v] + nd.st)
                       /\ pc' = nd.b /\ UNCHANGED stk
                  ELSE pc' = nd.nx /\ stk' = Tail(stk) /\ UNCHANGED env
          /\ Keep

InstAt(nd) == [ k \in 1..Len(nd.sub) |-> Eval(nd.sub[k], env) ]

(* Names: the loops around a statement (sc) are named after a scattering      *)
(* dimension or an iterator and hold the value of that dimension; there are   *)
(* no other names.  A statement carries the name (n) and the user pointer (p) *)
(* it was given.  (Checked when the case gives the names.)                    *)
NamesOK(nd, s, it) ==
  LET sn == Cases[c].sn
      im == Cases[c].inm
      dt == Date(Stm[s], it, p)
  IN /\ nd.n = Stm[s].name /\ nd.p = Stm[s].usr
     /\ \A k \in 1..Len(nd.sc) :
       LET x == nd.sc[k]
       IN \/ \E j \in 1..Len(sn) : sn[j] = x /\ j <= Len(dt) /\ env[x] = dt[j]
          \/ \E j \in 1..Len(im) : im[j] = x /\ (j <= Len(it) => env[x] = it[j])

User == /\ Run /\ pc # 0 /\ N(pc).k = "usr"
        /\ LET s  == N(pc).s
               it == InstAt(N(pc))
           IN /\ MayExec(Stm, p, todo, last, s, it)
              /\ Cases[c].nm => NamesOK(N(pc), s, it)
              /\ todo' = todo \ { <<s, it>> }
              /\ last' = Date(Stm[s], it, p)
        /\ pc' = N(pc).nx /\ UNCHANGED <<c, p, stk, env>> /\ verdict' = "run"

\* the AST wants to execute something Scan does not allow
Bad == /\ Run /\ pc # 0 /\ N(pc).k = "usr"
       /\ LET s  == N(pc).s
              it == InstAt(N(pc))
          IN /\ ~ MayExec(Stm, p, todo, last, s, it)
             /\ verdict' = IF <<s, it>> \in todo THEN "order"
                           ELSE IF s \in 1..Len(Stm) /\ Member(Stm[s], it, p)
                                THEN "twice" ELSE "extra"
             /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict', <<s, it>> >>)
       /\ UNCHANGED <<pc, stk, env>> /\ Same

BadName == /\ Run /\ pc # 0 /\ N(pc).k = "usr" /\ Cases[c].nm
           /\ LET s  == N(pc).s
                  it == InstAt(N(pc))
              IN /\ MayExec(Stm, p, todo, last, s, it)
                 /\ ~ NamesOK(N(pc), s, it)
                 /\ verdict' = "name"
                 /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict', <<s, it>> >>)
           /\ UNCHANGED <<pc, stk, env>> /\ Same

Stop == /\ Run /\ pc = 0 /\ stk = <<>>
        /\ verdict' = IF todo = {} THEN "ok" ELSE "missing"
        /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict',
                    IF todo = {} THEN <<>> ELSE CHOOSE x \in todo : TRUE >>)
        /\ UNCHANGED <<pc, stk, env>> /\ Same

\* the AST reads a variable nobody has defined
Scoped == IF pc = 0 THEN TRUE ELSE \A k \in 1..Len(N(pc).u) : N(pc).u[k] \in DOMAIN env
Unbound == /\ Run /\ ~ Scoped
           /\ verdict' = "unbound"
           /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict', <<>> >>)
           /\ UNCHANGED <<pc, stk, env>> /\ Same

Diverge == /\ verdict = "run" /\ n > MaxSteps /\ n' = n
           /\ verdict' = "diverges"
           /\ PrintT(<<"VERDICT", Cases[c].id, p, verdict', <<>> >>)
           /\ UNCHANGED <<pc, stk, env>> /\ Same

Steps == \/ Load
         \/ Diverge
         \/ n <= MaxSteps /\ Unbound
         \/ n <= MaxSteps /\ Scoped /\ (Assign \/ Block \/ Guard \/ ForEnter \/ Return \/ User \/ Bad \/ BadName)
Next == Steps \/ (n <= MaxSteps /\ Stop)
Spec == Init /\ [][Next]_vars
=============================================================================
