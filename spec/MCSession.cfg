SPECIFICATION MCSpec
CONSTANTS MaxTime = 4  GenDepth = 99  NIds = 3
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Limit IdsIssued
PROPERTIES NeverResurrected IssuedOnce ContentKept GoneOnlyByEnd
