SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxBuf = 130  MaxLevel = 6
CONSTRAINT Bound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS WaitsForCause ClosedIdle
PROPERTY NothingLost
