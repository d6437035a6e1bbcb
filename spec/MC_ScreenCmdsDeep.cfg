SPECIFICATION Spec
CONSTANTS MaxCmds = 7  Sizes = {1}
INVARIANTS Accounted Emit
CHECK_DEADLOCK FALSE
