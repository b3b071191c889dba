SPECIFICATION MCSpec
CONSTANTS GenDepth = 99
VIEW MCView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Limited WaitsForCause OnlyGood
