SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxLen = 4
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANT InOrder
