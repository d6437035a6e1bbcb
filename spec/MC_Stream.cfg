SPECIFICATION Spec
CONSTANTS MaxLines = 3  MaxCalls = 3  MaxPlan = 6
INVARIANTS InOrder NotBehind Waiting Kept Emit
CHECK_DEADLOCK FALSE
