SPECIFICATION Spec
CONSTANTS Pars <- MCPars  Boxes <- MCBoxes  Ops = {"New", "Edit", "Move", "Use"}  MaxCmds = 4
INVARIANTS Right Carried Sharp
PROPERTY Kept
CHECK_DEADLOCK FALSE
