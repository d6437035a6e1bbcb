SPECIFICATION Spec
CONSTANTS Pars <- OnePar  Batches <- OneBatch  Ops = {"Eval", "Move", "Draw", "Bad"}  MaxCmds = 5
INVARIANTS Pointwise Emit
CHECK_DEADLOCK FALSE
