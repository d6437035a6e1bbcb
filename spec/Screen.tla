------------------------------- MODULE Screen -------------------------------
(* V02.  A sampler (or distribution) whose state advances with every        *)
(* request, axes on which elements of others stand, and the batches of      *)
(* elements its drawings added and which their owner may take away again.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxCmds, Sizes
VARIABLES ver, next, foreign, held, screen, look, cmds
vars == <<ver, next, foreign, held, screen, look, cmds>>
Init == ver = 0 /\ next = 1 /\ foreign = {} /\ held = <<>> /\ screen = {} /\ look = <<>> /\ cmds = <<>>
Cmd(c) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, c)
Req == /\ Cmd([op |-> "Req"])
       /\ ver' = ver + 1
       /\ UNCHANGED <<next, foreign, held, screen, look>>
\* a drawing adds new elements, all of which it hands out, and advances nothing
Draw == /\ ver > 0
        /\ Cmd([op |-> "Draw"])
        /\ \E n \in Sizes : LET new == next..next + n - 1 IN
             /\ next' = next + n
             /\ held' = Append(held, [ids |-> new, ver |-> ver])
             /\ screen' = screen \cup new
             /\ look' = [i \in 1..next + n - 1 |-> IF i < next THEN look[i] ELSE ver]
        /\ UNCHANGED <<ver, foreign>>
Clear == /\ held # <<>>
         /\ Cmd([op |-> "Clear"])
         /\ held' = Tail(held)
         /\ screen' = screen \ Head(held).ids
         /\ UNCHANGED <<ver, next, foreign, look>>
Own == /\ Cmd([op |-> "Own"])
       /\ foreign' = foreign \cup {next} /\ screen' = screen \cup {next} /\ next' = next + 1
       /\ look' = Append(look, 0)
       /\ UNCHANGED <<ver, held>>
Next == Req \/ Draw \/ Clear \/ Own
Spec == Init /\ [][Next]_vars
\* everything on the axes is somebody's: the drawings' elements can be taken away without residue, the others stay
Accounted == screen = foreign \cup UNION {held[i].ids : i \in DOMAIN held}
Apart == \A i \in DOMAIN held : held[i].ids \cap foreign = {} /\ \A j \in DOMAIN held : i # j => held[i].ids \cap held[j].ids = {}
\* a drawing shows the state it was drawn from, the latest one the current state
Dated == \A i \in DOMAIN held : \A x \in held[i].ids : look[x] = held[i].ver
Latest == cmds # <<>> => (cmds[Len(cmds)].op = "Draw" => held[Len(held)].ver = ver)
Counted == ver = Cardinality({i \in DOMAIN cmds : cmds[i].op = "Req"})
=============================================================================
