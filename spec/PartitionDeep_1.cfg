SPECIFICATION Spec
CONSTANTS D = 1  MaxExpansions = 6
INVARIANTS Tiling NodeCount Emit
PROPERTY Step
CHECK_DEADLOCK FALSE
