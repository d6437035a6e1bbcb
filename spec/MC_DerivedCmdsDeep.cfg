SPECIFICATION Spec
CONSTANTS Obs <- OneObs  Batches <- OneBatch  MaxCmds = 5
INVARIANTS NotAbovePrior Emit
CHECK_DEADLOCK FALSE
