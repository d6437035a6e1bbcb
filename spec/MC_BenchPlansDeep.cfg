SPECIFICATION Spec
CONSTANTS Metrics <- MOne  Batches = {2, 3}  Totals = {1, 4, 6}  Reps = {1}  Limits = {"2"}  Durations = {"0", "1", "3"}  Over = 1
INVARIANTS Emit
VIEW View
CHECK_DEADLOCK FALSE
