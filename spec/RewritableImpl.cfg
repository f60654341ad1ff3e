SPECIFICATION Spec
CONSTANTS W = 2 N = 3
VIEW View
INVARIANTS TablesOK
PROPERTY Refines
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
