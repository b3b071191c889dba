SPECIFICATION MCSpec
CONSTANTS GenDepth = 9  MaxReq = 4  Known = {}
VIEW MCView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS AnsweredInOrder AllAnsweredWhenIdle AtMostOneWaiting
