SPECIFICATION Spec
CONSTANTS Obs <- OneObs  Batches <- OneBatch  MaxCmds = 4
INVARIANTS NotAbovePrior Emit
CHECK_DEADLOCK FALSE
