SPECIFICATION Spec
CONSTANTS MaxDims = 3  MaxCount = 4  MaxTime = 150
INVARIANTS NoneTwice AllInTheEnd Corners Ends TimeAddsUp TimeInRange Emit
CHECK_DEADLOCK FALSE
