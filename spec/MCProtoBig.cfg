SPECIFICATION MCSpec
CONSTANTS GenDepth = 99 MaxReg = 6
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS OneWaiter Undecided
PROPERTIES OutcomeFixed OnlyWaiting
