SPECIFICATION Spec
CONSTANTS Obs <- MCObs  Batches <- MCBatches  MaxCmds = 4
INVARIANTS NotAbovePrior
PROPERTIES RefusedBefore LatestOnly
CHECK_DEADLOCK FALSE
