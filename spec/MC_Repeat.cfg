SPECIFICATION Spec
CONSTANTS Experiments = {1, 2}  Seeds = {0, 1}  MaxCmds = 3
INVARIANTS Repeatable Plain Emit
CHECK_DEADLOCK FALSE
