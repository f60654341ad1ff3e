SPECIFICATION Spec
CONSTANTS Chars = {0, 1} MaxLen = 2 Items = {1, 2} MaxIns = 3
INVARIANTS TraverseOK SizeOK DfsOK BfsOK LastOK ItemsOK TreeOK
PROPERTY EmitStep
CHECK_DEADLOCK FALSE
