SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  Wide = TRUE
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Escaped
