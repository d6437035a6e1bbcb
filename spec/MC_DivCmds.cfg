SPECIFICATION Spec
CONSTANTS Points <- Pts  Levels <- One  MaxCmds = 3
INVARIANT Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
