SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxPeers = 2  MaxQ = 2
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS OnlyLive QueueOnlyOfCurrent
PROPERTY SendTruth
