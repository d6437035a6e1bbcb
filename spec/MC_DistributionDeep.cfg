SPECIFICATION Spec
CONSTANTS Pars <- MCPars  Batches <- MCBatches  Ops = {"Eval", "Move", "Draw"}  MaxCmds = 4
INVARIANTS Pointwise Slope Mass
PROPERTY Untouched
CHECK_DEADLOCK FALSE
