SPECIFICATION Spec
CONSTANTS W = 4 N = 4 AllValues = FALSE
VIEW View
INVARIANTS TypeOK InBounds
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
