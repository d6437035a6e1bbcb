SPECIFICATION Spec
CONSTANTS Pars <- MCPars  Batches <- MCBatches  Ops = {"Eval", "Move", "Draw"}  MaxCmds = 3
INVARIANTS Pointwise Slope Mass
PROPERTY Untouched
CHECK_DEADLOCK FALSE
