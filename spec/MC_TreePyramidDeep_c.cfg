SPECIFICATION Spec
CONSTANTS D = 2  WeightSet = {"1.0", "3.0"}  Ess0 = "none"  NMin = 1  Par = 3  MaxRounds = 3  MaxLeaves = 4
INVARIANTS Tiling Found
PROPERTY RoundOk
CHECK_DEADLOCK FALSE
