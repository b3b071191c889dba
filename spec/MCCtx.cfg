SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxLevel = 6  Ths = {1}
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Lineage OwnSpan Inherited
PROPERTY Isolated
