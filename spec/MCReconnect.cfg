SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxN = 6  MaxT = 1000
CONSTRAINT Bound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS OpensInTime FreshAfterSuccess
PROPERTIES Allowed OpenStays
