SPECIFICATION Spec
CONSTANTS MaxCmds = 7  Sizes = {1, 2}
INVARIANTS Accounted Apart Dated Latest Counted
CHECK_DEADLOCK FALSE
