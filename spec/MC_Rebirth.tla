----------------------------- MODULE MC_Rebirth -----------------------------
EXTENDS Rebirth, Json, Reals, TLC
Lives == \E i \in DOMAIN cmds : cmds[i].op = "Reset"
Emit == (Len(cmds) = MaxCmds /\ Lives /\ cmds[Len(cmds)].op # "Reset") => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
