------------------------------- MODULE Nearest ------------------------------
(* A nearest-neighbour model: evaluations and draws, in any order, from a   *)
(* fixed set of valued samples.                                             *)
EXTENDS NearestProps
CONSTANTS Places, Values, Count, Probes, MaxCmds
VARIABLES C, w, seen, cmds
vars == <<C, w, seen, cmds>>
Init == /\ C \in [1..Count -> Places] /\ w \in [1..Count -> Values]
        /\ \E i \in 1..Count : w[i] # "0"
        /\ seen = [x \in {} |-> {}] /\ cmds = <<>>
Did(c) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, c) /\ UNCHANGED <<C, w>>
\* the value found for x, once for all: the set of values ties allow
Ask(x) == Did([op |-> "Ask", at |-> x]) /\ seen' = (x :> {w[i] : i \in Nearest(C, x)}) @@ seen
Draw(i) == w[i] # "0" /\ Did([op |-> "Draw", at |-> C[i]]) /\ UNCHANGED seen
Next == (\E x \in Probes : Ask(x)) \/ (\E i \in 1..Count : Draw(i))
Spec == Init /\ [][Next]_vars
\* evaluations and draws do not change the model
Pure == [][\A x \in DOMAIN seen : seen'[x] = seen[x]]_vars
Fine == \A x \in DOMAIN seen : seen[x] # {} /\ \A v \in seen[x] : Answer(C, w, x, v)
\* a sample answers for itself (for its twins too)
Own == \A i \in 1..Count : {w[j] : j \in Nearest(C, C[i])} = {w[j] : j \in {j \in 1..Count : C[j] = C[i]}}
\* the order of the samples does not matter
Rot(v) == [i \in 1..Len(v) |-> v[(i % Len(v)) + 1]]
Orderless == \A x \in DOMAIN seen : {Rot(w)[i] : i \in Nearest(Rot(C), x)} = {w[i] : i \in Nearest(C, x)}
\* half way to its nearest sample a point has the same neighbour: cells are star shaped
Half(a, b) == VScale("0.5", VAdd(a, b))
Star == \A x \in DOMAIN seen : \A i \in Nearest(C, x) : i \in Nearest(C, Half(C[i], x))
\* shares are a probability vector; what is never drawn has share zero
Shares == /\ RClose(RSum([i \in 1..Count |-> Share(w, i)]), "1", "1e-12", "0")
          /\ \A j \in DOMAIN cmds : cmds[j].op = "Draw" => \E i \in 1..Count : C[i] = cmds[j].at /\ RLt("0", Share(w, i))
=============================================================================
