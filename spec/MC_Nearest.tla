----------------------------- MODULE MC_Nearest -----------------------------
EXTENDS Nearest
P1 == { <<"0">>, <<"1">>, <<"2">>, <<"-3">> }
Q1 == { <<"0">>, <<"0.5">>, <<"1.6">>, <<"-9">> }
P2 == { <<"0", "0">>, <<"1", "2">>, <<"2", "-1">>, <<"-1", "1">>, <<"1", "1">> }
Q2 == { <<"0", "0">>, <<"0.5", "0.5">>, <<"1.5", "0.5">>, <<"-9", "4">>, <<"2", "2">> }
V2 == {"0", "0.3"}
V3 == {"0", "0.3", "0.7"}
=============================================================================
