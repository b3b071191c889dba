SPECIFICATION MCSpec
CONSTANTS GenDepth = 99 MaxCalls = 3
CONSTRAINT Bound
VIEW GenView
CHECK_DEADLOCK FALSE
INVARIANTS Disjoint
PROPERTIES GateShake GateCaps NoStranger
