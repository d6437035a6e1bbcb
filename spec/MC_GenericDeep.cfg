SPECIFICATION Spec
CONSTANTS MaxCmds = 5  Steps = 9000  Grid = {"0", "0.2", "0.77", "0.999", "1.5", "3"}
INVARIANTS SymmetricOnce OneMassOnce Emit
PROPERTY Rule
CHECK_DEADLOCK FALSE
