---------------------------- MODULE MC_HiDaisee -----------------------------
EXTENDS HiDaisee
=============================================================================
