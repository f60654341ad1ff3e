SPECIFICATION Spec
CONSTANTS MaxW = 6
INVARIANTS XsInvolution Inverse Permutes Emit
CHECK_DEADLOCK FALSE
