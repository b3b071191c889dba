SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxT = 1000
CONSTRAINT Bound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANT Sane
PROPERTY Blocks
