---------------------------- MODULE MC_Rejection ----------------------------
EXTENDS Rejection, Json
Emit == Len(script) = MaxDraws => Say(<<"BEH", ToJson(script)>>)
=============================================================================
