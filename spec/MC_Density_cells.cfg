SPECIFICATION Spec
CONSTANTS Kind = "cells"  Points = {"0.1", "0.8"}  MaxHeld = 2  NKernels = 2  CellWeights = {"0", "1", "nan"}
INVARIANTS Follows Forgotten Probability OwnSamples Total Positive
CHECK_DEADLOCK FALSE
