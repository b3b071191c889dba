SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxR = 4
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANT LiveRegistered
PROPERTIES EachChangeAnnounced NothingElseAnnounced NeverBack
