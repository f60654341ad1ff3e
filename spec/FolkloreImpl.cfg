SPECIFICATION Spec
CONSTANTS N = 3 Vals = {0, 1}
VIEW View
INVARIANTS ListOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
