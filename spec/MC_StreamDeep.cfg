SPECIFICATION Spec
CONSTANTS MaxLines = 4  MaxCalls = 4  MaxPlan = 7
INVARIANTS InOrder NotBehind Waiting Kept Emit
CHECK_DEADLOCK FALSE
