SPECIFICATION MCSpec
CONSTANTS GenDepth = 99
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
PROPERTIES AnnouncedIffSubscribed OnlyNamed
