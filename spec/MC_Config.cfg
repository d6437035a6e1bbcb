SPECIFICATION Spec
CONSTANTS Objects = {1, 2}  TargetFiles <- TF  MethodFiles <- MF  MaxCmds = 4
INVARIANTS FromOneFile Emit
PROPERTIES OwnOnly RefusedWhenBroken
CHECK_DEADLOCK FALSE
