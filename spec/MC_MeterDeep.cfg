SPECIFICATION Spec
CONSTANTS MaxCmds = 7  Jumps = {"2", "-3"}  Cost = "0.25"
INVARIANTS Exact Zero Emit
PROPERTY Steady
CHECK_DEADLOCK FALSE
