SPECIFICATION Spec
CONSTANTS W = 2 N = 4
VIEW View
INVARIANTS TablesOK
PROPERTY Refines
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
