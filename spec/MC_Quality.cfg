SPECIFICATION Spec
CONSTANTS Ws = {"0.25", "1.0", "7.5"}  Xs = {"-1.0", "0.5", "2.0"}  MaxN = 3  Factors = {"0.001", "3.0"}
INVARIANTS InRange OneIffEqual Rate
PROPERTY ScaleFree
CHECK_DEADLOCK FALSE
