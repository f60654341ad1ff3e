SPECIFICATION Spec
CONSTANTS Chars = {0, 1, 2} MaxLen = 2 Items = {1} MaxIns = 3
INVARIANTS TraverseOK SizeOK DfsOK BfsOK LastOK ItemsOK TreeOK
CHECK_DEADLOCK FALSE
