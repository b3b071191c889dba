SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxH = 4
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
PROPERTIES FiresOnlyRegistered ToldOnce FiredStays
