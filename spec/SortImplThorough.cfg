SPECIFICATION Spec
CONSTANTS M = 3 N = 7
INVARIANTS Outside Permutation HeapOK TakenOK Sorted
CHECK_DEADLOCK FALSE
