SPECIFICATION Spec
CONSTANTS D = 1  Steps = 6  NMin = 2  Ess0 = "0.95"  Places = {"-0.6", "0.1", "0.7"}  Kind = "gauss"  Tau = "0.1"
INVARIANTS Tiling EachOnce Homes Mass Shares
CHECK_DEADLOCK FALSE
