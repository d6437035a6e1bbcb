SPECIFICATION Spec
CONSTANTS Targets = {"a", "b"}  Sizes = {4, 9}  MaxCmds = 6
INVARIANTS LikeFresh Emit
CHECK_DEADLOCK FALSE
