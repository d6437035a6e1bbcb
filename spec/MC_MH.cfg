SPECIFICATION Spec
CONSTANTS Burn = 1  Steps = 2  Deltas = {"-0.7", "0.4", "1.5"}  Us = {"0.08", "0.75"}  Kind = "ramp"  MaxProposals = 5  MaxResets = 0  Starts = {"0.3"}
INVARIANTS InSpace BurnOnce SamplesAreTheWalk Emit
PROPERTY Uphill
CHECK_DEADLOCK FALSE
