SPECIFICATION Spec
CONSTANTS M = 3 N = 5
VIEW View
INVARIANTS HeapOrder FrontOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
