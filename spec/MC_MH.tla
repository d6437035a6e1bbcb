------------------------------- MODULE MC_MH --------------------------------
EXTENDS MH, Json, TLCExt
Emit == (Len(script) = MaxProposals /\ resets = 0) => Say(<<"BEH", ToJson(script)>>)
=============================================================================
