SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxLevel = 6  Fs = {"a.txt", "sub/b.md", "sub/t.log"}
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Limit NoneOverdue OnlyWatched OnlyRegistered
PROPERTY Settled
