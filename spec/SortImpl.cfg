SPECIFICATION Spec
CONSTANTS M = 3 N = 4
INVARIANTS Outside Permutation HeapOK TakenOK Sorted Emit
CHECK_DEADLOCK FALSE
