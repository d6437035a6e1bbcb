SPECIFICATION Spec
CONSTANTS Objects = {1, 2, 3}  Kinds = {"point", "function", "axis"}  MaxLen = 4
INVARIANTS LatestOnly NothingElse Emit
PROPERTIES OthersUndisturbed
CHECK_DEADLOCK FALSE
