SPECIFICATION Spec
CONSTANTS Places <- P  Values <- One  Count = 2  Probes <- P  MaxCmds = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
