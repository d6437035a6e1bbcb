SPECIFICATION Spec
CONSTANTS MaxCmds = 9  Sizes = {1, 2}
INVARIANTS Accounted Apart Dated Latest Counted
CHECK_DEADLOCK FALSE
