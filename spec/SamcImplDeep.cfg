SPECIFICATION Spec
CONSTANTS Top = 3 MaxLen = 3 MaxKeys = 2 B = 4 MinLen = 0
INVARIANTS AcceptOK InBounds CellsOK DictOK
CHECK_DEADLOCK FALSE
