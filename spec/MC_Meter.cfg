SPECIFICATION Spec
CONSTANTS MaxCmds = 6  Jumps = {"2"}  Cost = "0.25"
INVARIANTS Exact Zero Emit
PROPERTY Steady
CHECK_DEADLOCK FALSE
