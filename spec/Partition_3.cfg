SPECIFICATION Spec
CONSTANTS D = 3  MaxExpansions = 2
INVARIANTS Tiling NodeCount Emit
PROPERTY Step
CHECK_DEADLOCK FALSE
