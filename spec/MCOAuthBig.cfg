SPECIFICATION MCSpec
CONSTANTS MaxTime = 3601  GenDepth = 99  NTok = 3  NCode = 1
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS OnlyIssued OneRefresh
PROPERTIES NeverBack IssuePaid IdentityKept
