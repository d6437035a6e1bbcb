SPECIFICATION Spec
CONSTANTS Pars <- TwoPars  Boxes <- TwoBoxes  Ops = {"New", "Edit", "Move", "Use"}  MaxCmds = 6
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
