SPECIFICATION MCSpec
CONSTANTS GenDepth = 99
CHECK_DEADLOCK FALSE
INVARIANTS ReadsBack
