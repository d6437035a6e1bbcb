SPECIFICATION Spec
CONSTANTS Xs = {"-0.8", "0.1", "0.6"}  Us = {"0.0", "0.35", "0.9"}  Kind = "gauss"  Scaling = "2.5"  Q = "uniform"  MaxDraws = 5  Requests = {1, 3}
INVARIANTS KeptInOrder NeverTooMany Emit
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
