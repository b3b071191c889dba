INIT GInit
NEXT GNext
CONSTANTS GenDepth = 6  MaxConn = 2  MaxQ = 2
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
