SPECIFICATION Spec
CONSTANTS MaxCmds = 2  Sizes = {1, 5}  Budgets = {"ample", "short", "tiny"}  Gains = {0, 2}  Costs = {1, 2}  MaxHeld = 12
INVARIANTS Returned
PROPERTY NeverLate
CONSTRAINT Window
CHECK_DEADLOCK FALSE
