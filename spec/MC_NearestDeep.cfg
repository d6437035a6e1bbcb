SPECIFICATION Spec
CONSTANTS Places <- P2  Values <- V2  Count = 3  Probes <- Q2  MaxCmds = 3
INVARIANTS Fine Own Orderless Star Shares
PROPERTY Pure
CHECK_DEADLOCK FALSE
