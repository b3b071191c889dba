SPECIFICATION MCSpec
CONSTANTS GenDepth = 99
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Once Guarded NoneUp
