SPECIFICATION Spec
CONSTANTS Places <- P  Values <- One  Count = 2  Probes <- P  MaxCmds = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
