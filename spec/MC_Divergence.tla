---------------------------- MODULE MC_Divergence ---------------------------
EXTENDS Divergence, Json
Pts == << <<"0">>, <<"1">>, <<"2.5">> >>
Pts4 == << <<"0", "1">>, <<"1", "-2">>, <<"2.5", "0.5">>, <<"-1", "0">> >>
L3 == {"0", "1", "2", "5"}
L2 == {"0", "1", "3"}
=============================================================================
