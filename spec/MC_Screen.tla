----------------------------- MODULE MC_Screen ------------------------------
EXTENDS Screen, Reals, Json
Emit == Len(cmds) = MaxCmds /\ cmds[MaxCmds].op = "Draw" => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
