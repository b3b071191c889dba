SPECIFICATION MCSpec
CONSTANTS GenDepth = 99 MaxSess = 2 MaxCnt = 3
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS LiveAreIssued StreamsAreLive LogsAreLive LogsApart StreamsApart InOrder OwnStream
PROPERTIES NeverReissued VersionFixed
