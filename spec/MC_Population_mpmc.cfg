SPECIFICATION Spec
CONSTANTS Kind = "mpmc"  N = 2  K = 3  L = 2  MaxIter = 2  MaxCmds = 0
INVARIANTS InForce Normal Confined AlphaOk
PROPERTIES Moments OnlySamples
CHECK_DEADLOCK FALSE
