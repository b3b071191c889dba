SPECIFICATION MCSpec
CONSTANTS GenDepth = 99 MaxReg = 4
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS OneWaiter Undecided
PROPERTIES OutcomeFixed OnlyWaiting
