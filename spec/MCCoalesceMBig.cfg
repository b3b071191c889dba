SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxV = 3  MaxT = 300
CONSTRAINT Bound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS NothingEmpty BatchSize NotLate
PROPERTY Conserve
