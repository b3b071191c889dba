INIT GInit
NEXT GNext
CONSTANTS GenDepth = 6  MaxLevel = 99  Fs = {"a.txt", "sub/b.md", "sub/t.log"}
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
