SPECIFICATION Spec
CONSTANTS Chars = {0, 1} MaxLen = 2 Items = {1, 2} MaxIns = 4
INVARIANTS TraverseOK SizeOK DfsOK BfsOK LastOK ItemsOK TreeOK
CHECK_DEADLOCK FALSE
