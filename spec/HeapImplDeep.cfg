SPECIFICATION Spec
CONSTANTS M = 3 N = 7
VIEW View
INVARIANTS HeapOrder FrontOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
