SPECIFICATION Spec
CONSTANTS Sizes = {1, 4, 9}  Batches = {1, 3}  MaxCmds = 4  Regions = {FALSE, TRUE}
INVARIANTS CountsInv NoDuplicates Emit
PROPERTY StepOk
CHECK_DEADLOCK FALSE
