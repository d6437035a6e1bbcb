SPECIFICATION Spec
CONSTANTS D = 2  Steps = 4  NMin = 2  Ess0 = "0.97"  Places = {"-0.6", "0.3"}  Kind = "ripple"  Tau = "0.1"
INVARIANTS Tiling EachOnce Homes Mass Shares
CHECK_DEADLOCK FALSE
