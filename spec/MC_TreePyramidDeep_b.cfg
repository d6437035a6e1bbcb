SPECIFICATION Spec
CONSTANTS D = 1  WeightSet = {"1.0", "3.0"}  Ess0 = "0.9"  NMin = 2  Par = 2  MaxRounds = 6  MaxLeaves = 4
INVARIANTS Tiling Found
PROPERTY RoundOk
CHECK_DEADLOCK FALSE
