---------------------------- MODULE RebirthProps ----------------------------
EXTENDS Sequences
\* two lives answered the same, step by step
SameLife(a, b) == a = b
=============================================================================
