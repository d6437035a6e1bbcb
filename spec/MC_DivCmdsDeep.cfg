SPECIFICATION Spec
CONSTANTS Points <- Pts  Levels <- One  MaxCmds = 4
INVARIANT Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
