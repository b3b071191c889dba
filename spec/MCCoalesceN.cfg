SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxV = 2  MaxT = 200
CONSTRAINT Bound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS NothingEmpty BatchSize NotLate
PROPERTY Conserve
