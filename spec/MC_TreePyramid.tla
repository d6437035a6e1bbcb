--------------------------- MODULE MC_TreePyramid ---------------------------
EXTENDS TreePyramid
=============================================================================
