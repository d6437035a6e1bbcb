------------------------------ MODULE MC_Bench ------------------------------
EXTENDS Bench, Json
MTwo == {<<"JSD", "T">>}
MOne == {<<>>}
MSome == {<<>>, <<"T">>}
MTwoUp == {<<"JSD", "T">>}
MAll == {<<>>, <<"T">>, <<"JSD", "T">>, <<"KLD", "JSD", "T">>}
\* one behaviour of the environment: only the deliveries matter for the replay
Emit == Ended => Say(<<"BEH", ToJson([c |-> c, plan |-> plan])>>)
View == <<c, s, plan>>
=============================================================================
