SPECIFICATION Spec
CONSTANTS W = 4 N = 9
VIEW View
INVARIANT TypeOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
