---- MODULE MC_Density ----
EXTENDS Density
====
