SPECIFICATION Spec
CONSTANTS Metrics <- MSome  Batches = {2}  Totals = {1, 4}  Reps = {1, 2}  Limits = {"2"}  Durations = {"0", "3"}  Over = 1
INVARIANTS Closed Bracketed Grow Row NotAfterTheLimit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
