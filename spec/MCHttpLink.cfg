SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxQ = 3
VIEW MCView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS StreamUp WaitsForCause SendEnds
PROPERTY NothingLost
