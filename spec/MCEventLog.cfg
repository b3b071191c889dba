SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxN = 5  MaxT = 33
CONSTRAINT Bound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS Bounded NoGapsNoRepeats
PROPERTY OnlyOldestLost
