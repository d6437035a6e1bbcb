----------------------------- MODULE MC_Config ------------------------------
EXTENDS Config, Reals, Json
TF == {<<"t1">>, <<"t2", "t3">>, <<"t2", "broken">>}
MF == {<<"m1">>, <<"m2", "m1">>, <<"broken", "m1">>}
Ops == {cmds[i].op : i \in DOMAIN cmds}
Emit == Len(cmds) = MaxCmds => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
