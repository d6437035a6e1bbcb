SPECIFICATION Spec
CONSTANTS Points <- Pts  Levels <- L3  MaxCmds = 0
INVARIANTS NonNegative ZeroIffEqual Bounded Worst ScaleFree OrderFree
CHECK_DEADLOCK FALSE
