--------------------------- MODULE MC_NearestCmds ---------------------------
(* Orders of evaluations and draws, printed for replay.                     *)
EXTENDS Nearest, Json
P == { <<"0">>, <<"1">> }
Q == { <<"0">> }
One == {"1"}
Emit == Len(cmds) = MaxCmds /\ C = <<(<<"0">>), (<<"1">>)>> => Say(<<"BEH", ToJson([i \in DOMAIN cmds |-> [op |-> cmds[i].op, o |-> IF cmds[i].at = <<"0">> THEN 1 ELSE 2]])>>)
=============================================================================
