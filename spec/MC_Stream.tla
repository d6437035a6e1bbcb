----------------------------- MODULE MC_Stream ------------------------------
EXTENDS Stream, Reals, Json
Parts == {i \in DOMAIN plan : ~plan[i].whole}
Emit == Len(plan) = MaxPlan /\ (\E i \in DOMAIN plan : plan[i].who = "C") /\ (\E i \in DOMAIN plan : plan[i].who = "P") => Say(<<"BEH", ToJson(plan)>>)
=============================================================================
