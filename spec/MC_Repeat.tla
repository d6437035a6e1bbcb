----------------------------- MODULE MC_Repeat ------------------------------
EXTENDS Repeat, Reals, Json
Runs == {i \in DOMAIN cmds : cmds[i].op = "Run"}
\* worth replaying: some experiment runs twice from the same seed
Emit == Len(cmds) = MaxCmds /\ (\E i, j \in Runs : i < j /\ cmds[i].e = cmds[j].e /\ cmds[i].seed = cmds[j].seed) => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
