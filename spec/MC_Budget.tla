----------------------------- MODULE MC_Budget ------------------------------
EXTENDS Budget
Window == clock < 14
=============================================================================
