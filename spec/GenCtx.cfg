INIT GInit
NEXT GNext
CONSTANTS GenDepth = 5  MaxLevel = 99  Ths = {1, 2}
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
