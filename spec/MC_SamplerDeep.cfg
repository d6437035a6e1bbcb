SPECIFICATION Spec
CONSTANTS Sizes = {1, 4, 9, 20}  Batches = {1, 3, 4}  MaxCmds = 5  Regions = {FALSE, TRUE}
INVARIANTS CountsInv NoDuplicates Emit
PROPERTY StepOk
CHECK_DEADLOCK FALSE
