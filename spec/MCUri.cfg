SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  Wide = FALSE
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Escaped
