----------------------------- MODULE MC_Helpers -----------------------------
EXTENDS Helpers, Json
Emit == at = 0 /\ left = 0 => Say(<<"BEH", ToJson(ns)>>)
=============================================================================
