SPECIFICATION Spec
CONSTANTS W = 4 N = 3 AllValues = TRUE
VIEW View
INVARIANTS TypeOK InBounds
PROPERTY Refines
CHECK_DEADLOCK FALSE
