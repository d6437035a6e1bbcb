------------------------------- MODULE Support -------------------------------
(* Two distributions built from one set of parameters the user keeps and    *)
(* edits: the support each of them states through builds, edits, moment     *)
(* changes and looks.                                                       *)
EXTENDS SupportProps
CONSTANTS Pars, Boxes, Ops, MaxCmds
VARIABLES sheet, box, obj, cmds
vars == <<sheet, box, obj, cmds>>
None == [par |-> <<>>, given |-> <<>>, sup |-> <<>>]
Dims(p) == CASE p.fam = "normal" -> Len(p.loc) [] p.fam = "exp" -> Len(p.mean) [] p.fam = "uniform" -> Len(p.c) [] p.fam = "banana" -> 2 [] OTHER -> 1
State(p, g) == IF g = <<>> THEN Default(p) ELSE g
Init == sheet \in Pars /\ box \in Boxes /\ obj = [o \in {1, 2} |-> None] /\ cmds = <<>>
Did(op, o) == Len(cmds) < MaxCmds /\ op \in Ops /\ cmds' = Append(cmds, [op |-> op, o |-> o])
New(o) == Did("New", o) /\ obj' = [obj EXCEPT ![o] = [par |-> sheet, given |-> box, sup |-> State(sheet, box)]] /\ UNCHANGED <<sheet, box>>
Alike(p, q) == p.fam = q.fam /\ Dims(p) = Dims(q)
Edit == Did("Edit", 1) /\ \E p \in Pars : Alike(p, sheet) /\ p # sheet /\ sheet' = p /\ UNCHANGED <<box, obj>>
Move(o) == obj[o].par # <<>> /\ Did("Move", o) /\ \E p \in Pars : Alike(p, obj[o].par) /\
           obj' = [obj EXCEPT ![o] = [par |-> p, given |-> @.given, sup |-> State(p, @.given)]] /\ UNCHANGED <<sheet, box>>
Use(o) == obj[o].par # <<>> /\ Did("Use", o) /\ UNCHANGED <<sheet, box, obj>>
Next == Edit \/ \E o \in {1, 2} : New(o) \/ Move(o) \/ Use(o)
Spec == Init /\ [][Next]_vars
Live == {o \in {1, 2} : obj[o].par # <<>>}
\* whatever is stated is right for the parameters in force
Right == \A o \in Live : Stated(obj[o].par, obj[o].given, Dims(obj[o].par), obj[o].sup) = {}
\* a box moved with its location keeps its mass: the requirement does not depend on where the distribution is
Slide(p, v) == CASE p.fam = "normal" -> [p EXCEPT !.loc = VAdd(p.loc, v)] [] p.fam = "uniform" -> [p EXCEPT !.c = VAdd(p.c, v)] [] OTHER -> p
Carried == \A o \in Live : obj[o].par.fam \in {"normal", "uniform"} /\ obj[o].given = <<>> =>
             LET v == [d \in 1..Dims(obj[o].par) |-> "2.5"]
             IN  SameBox(Default(Slide(obj[o].par, v)), <<VAdd(obj[o].sup[1], v), VAdd(obj[o].sup[2], v)>>)
\* a stale box is noticed: the box of other parameters does not pass for these
Sharp == \A o \in Live : obj[o].given = <<>> => \A p \in Pars : Alike(p, obj[o].par) /\ p.fam \in {"normal", "uniform"} /\ p # obj[o].par =>
             Stated(obj[o].par, <<>>, Dims(p), Default(p)) # {} \/ SameBox(Default(p), Default(obj[o].par))
\* only builds and moment changes of an object touch what it states
Kept == [][\A o \in {1, 2} : obj'[o] # obj[o] => cmds'[Len(cmds')].o = o /\ cmds'[Len(cmds')].op \in {"New", "Move"}]_vars
=============================================================================
