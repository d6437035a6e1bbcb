---------------------------- MODULE Distribution ----------------------------
(* Two distributions of one family, built from the same parameters, through *)
(* every order of evaluations, moment (or weight) changes, draws and        *)
(* refused calls.                                                           *)
EXTENDS DistProps
CONSTANTS Pars, Batches, Ops, MaxCmds
VARIABLES par, last, cmds
vars == <<par, last, cmds>>
None == [o |-> 0, x |-> <<>>, l |-> <<>>]
Init == \E p \in Pars : par = [o \in {1, 2} |-> p] /\ last = None /\ cmds = <<>>
Did(op, o) == Len(cmds) < MaxCmds /\ op \in Ops /\ cmds' = Append(cmds, [op |-> op, o |-> o])
Eval(o) == Did("Eval", o) /\ \E X \in Batches : last' = [o |-> o, x |-> X, l |-> [i \in DOMAIN X |-> LogD(par[o], X[i])]] /\ UNCHANGED par
Move(o) == Did("Move", o) /\ \E p \in Pars : par' = [par EXCEPT ![o] = p] /\ last' = None
Draw(o) == Did("Draw", o) /\ UNCHANGED <<par, last>>
Bad(o) == Did("Bad", o) /\ UNCHANGED <<par, last>>
Next == \E o \in {1, 2} : Eval(o) \/ Move(o) \/ Draw(o) \/ Bad(o)
Spec == Init /\ [][Next]_vars
\* the batch is the sequence of its points
Pointwise == \A i \in DOMAIN last.x : last.l[i] = LogD(par[last.o], last.x[i])
Untouched == [][\A o \in {1, 2} : par'[o] # par[o] => (cmds'[Len(cmds')] = [op |-> "Move", o |-> o])]_vars
\* the density is the slope of the distribution function, which runs from 0 to 1 (one dimensional families)
H == "1e-5"
Slope == \A o \in {1, 2} : \A X \in Batches : \A i \in DOMAIN X :
   LET x == X[i] f(t) == Below(par[o], <<"1">>, t)
   IN  OnEdge(par[o], x) \/ RClose(RDiv(RSub(f(RAdd(x[1], H)), f(RSub(x[1], H))), RMul("2", H)), RExp(LogD(par[o], x)), "1e-4", "1e-6")
Mass == \A o \in {1, 2} : REq(Below(par[o], <<"1">>, "-1000"), "0") /\ RClose(Below(par[o], <<"1">>, "1000"), "1", "1e-12", "0")
=============================================================================
