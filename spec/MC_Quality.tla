----------------------------- MODULE MC_Quality -----------------------------
EXTENDS Quality
=============================================================================
