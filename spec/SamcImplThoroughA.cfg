SPECIFICATION Spec
CONSTANTS Top = 3 MaxLen = 2 MaxKeys = 13 B = 2 MinLen = 0
INVARIANTS AcceptOK InBounds CellsOK DictOK
CHECK_DEADLOCK FALSE
