SPECIFICATION Spec
CONSTANTS D = 1  MaxExpansions = 5
INVARIANTS Tiling NodeCount Emit
PROPERTY Step
CHECK_DEADLOCK FALSE
