SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxLen = 6
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS CutFree EndingFree
