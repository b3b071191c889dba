SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxTime = 4  NReq = 3  Max = 2
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Limit NoStall Complete
PROPERTY StartedOnce
