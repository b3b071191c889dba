SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxLen = 7
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS CutFree EndingFree
