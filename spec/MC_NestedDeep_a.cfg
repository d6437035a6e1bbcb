SPECIFICATION Spec
CONSTANTS Points <- Pts  N = 3  Groups <- One  MaxSamples = 6  MaxTries = 2  Converged = {}
INVARIANTS CountKept Climbs Normalised
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
