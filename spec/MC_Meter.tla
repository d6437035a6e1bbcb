------------------------------ MODULE MC_Meter ------------------------------
EXTENDS Meter, Json
\* histories worth replaying: at least one completed interval
Emit == Len(cmds) = MaxCmds /\ (\E i \in DOMAIN cmds : cmds[i].op = "Stop") => Say(<<"BEH", ToJson([i \in DOMAIN cmds |-> cmds[i].op])>>)
=============================================================================
