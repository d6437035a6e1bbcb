------------------------------ MODULE MC_Nested -----------------------------
EXTENDS Nested
Pts == <<"-3.0", "-1.0", "-1.0", "0.5">>
One == <<{1, 2, 3}>>
Two == <<{1, 3}, {2, 4}>>
=============================================================================
