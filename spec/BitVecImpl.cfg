SPECIFICATION Spec
CONSTANTS W = 2 N = 4
VIEW View
INVARIANT TypeOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
