------------------------------- MODULE MC_Viz -------------------------------
EXTENDS Viz, Reals, Json
Emit == seq # <<>> => Say(<<"BEH", ToJson(seq)>>)
=============================================================================
