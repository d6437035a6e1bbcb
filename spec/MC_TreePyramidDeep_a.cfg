SPECIFICATION Spec
CONSTANTS D = 1  WeightSet = {"1.0", "3.0"}  Ess0 = "none"  NMin = 1  Par = 2  MaxRounds = 4  MaxLeaves = 6
INVARIANTS Tiling Found
PROPERTY RoundOk
CHECK_DEADLOCK FALSE
