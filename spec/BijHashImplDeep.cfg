SPECIFICATION Spec
CONSTANTS MaxW = 8
INVARIANTS XsInvolution Inverse Permutes
CHECK_DEADLOCK FALSE
