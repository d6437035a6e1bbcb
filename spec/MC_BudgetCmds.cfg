SPECIFICATION Spec
CONSTANTS MaxCmds = 4  Sizes = {1, 5, 40}  Budgets = {"ample", "short", "tiny"}  Gains = {40}  Costs = {1}  MaxHeld = 1000
INVARIANTS Emit
CHECK_DEADLOCK FALSE
