SPECIFICATION Spec
CONSTANTS D = 3  MaxExpansions = 3
INVARIANTS Tiling NodeCount Emit
PROPERTY Step
CHECK_DEADLOCK FALSE
