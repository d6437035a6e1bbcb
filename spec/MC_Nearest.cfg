SPECIFICATION Spec
CONSTANTS Places <- P1  Values <- V3  Count = 3  Probes <- Q1  MaxCmds = 1
INVARIANTS Fine Own Orderless Star Shares
PROPERTY Pure
CHECK_DEADLOCK FALSE
