SPECIFICATION MCSpec
CONSTANTS MaxTime = 4300  GenDepth = 99  NTok = 2  NCode = 1
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS OnlyIssued OneRefresh
PROPERTIES NeverBack IssuePaid IdentityKept
