----------------------------- MODULE MC_Derived -----------------------------
EXTENDS Derived, Json
MCObs == {<<"0.5">>, <<"-1">>}
MCBatches == {<<<<"0.2">>>>, <<<<"1">>, <<"-0.4">>>>}
OneObs == {<<"0.5">>}
OneBatch == {<<<<"0.2">>>>}
Emit == Len(cmds) = MaxCmds => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
