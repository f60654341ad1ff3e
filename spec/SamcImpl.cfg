SPECIFICATION Spec
CONSTANTS Top = 2 MaxLen = 3 MaxKeys = 4 B = 2 MinLen = 0
INVARIANTS AcceptOK InBounds CellsOK DictOK Emit
CHECK_DEADLOCK FALSE
