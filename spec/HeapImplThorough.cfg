SPECIFICATION Spec
CONSTANTS M = 3 N = 9
VIEW View
INVARIANTS HeapOrder FrontOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
