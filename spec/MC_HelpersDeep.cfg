SPECIFICATION Spec
CONSTANTS MaxDims = 3  MaxCount = 5  MaxTime = 12000
INVARIANTS NoneTwice AllInTheEnd Corners Ends TimeAddsUp TimeInRange Emit
CHECK_DEADLOCK FALSE
