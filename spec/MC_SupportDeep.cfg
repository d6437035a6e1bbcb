SPECIFICATION Spec
CONSTANTS Pars <- MCPars  Boxes <- MCBoxes  Ops = {"New", "Edit", "Move", "Use"}  MaxCmds = 5
INVARIANTS Right Carried Sharp
PROPERTY Kept
CHECK_DEADLOCK FALSE
