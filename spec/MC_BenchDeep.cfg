SPECIFICATION Spec
CONSTANTS Metrics <- MTwoUp  Batches = {2, 3}  Totals = {1, 4}  Reps = {1, 2}  Limits = {"2"}  Durations = {"0", "1", "3"}  Over = 1
INVARIANTS Closed Bracketed Grow Row NotAfterTheLimit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
