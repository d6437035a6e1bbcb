SPECIFICATION Spec
CONSTANTS Points <- Pts  N = 4  Groups <- Two  MaxSamples = 3  MaxTries = 2  Converged = {2}
INVARIANTS CountKept Climbs Normalised
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
