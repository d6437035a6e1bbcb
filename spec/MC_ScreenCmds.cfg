SPECIFICATION Spec
CONSTANTS MaxCmds = 6  Sizes = {1}
INVARIANTS Accounted Emit
CHECK_DEADLOCK FALSE
