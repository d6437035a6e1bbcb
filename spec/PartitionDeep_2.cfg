SPECIFICATION Spec
CONSTANTS D = 2  MaxExpansions = 4
INVARIANTS Tiling NodeCount Emit
PROPERTY Step
CHECK_DEADLOCK FALSE
