SPECIFICATION Spec
CONSTANTS Top = 2 MaxLen = 4 MaxKeys = 3 B = 2 MinLen = 0
INVARIANTS AcceptOK InBounds CellsOK DictOK
CHECK_DEADLOCK FALSE
