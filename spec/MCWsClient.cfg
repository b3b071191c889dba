SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxConn = 3  MaxQ = 3
VIEW MCView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS WaitsForCause Limited OnlyIfWanted
PROPERTY QueueKept
