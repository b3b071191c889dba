SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxTime = 4  NAsk = 4
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS OneWaiterPerId EveryWaiterReachable NotBoth NoneOverdue
PROPERTIES OutcomeFixed OwnAnswer
