SPECIFICATION Spec
CONSTANTS N = 4 Vals = {0, 1}
VIEW View
INVARIANTS ListOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
