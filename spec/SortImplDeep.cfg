SPECIFICATION Spec
CONSTANTS M = 3 N = 5
INVARIANTS Outside Permutation HeapOK TakenOK Sorted
CHECK_DEADLOCK FALSE
