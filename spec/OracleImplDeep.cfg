SPECIFICATION Spec
CONSTANTS Chars = {0, 1} MaxLen = 7 K = 2
INVARIANTS ImageOK LinksOK TransOK BasesDistinct BasesMarked Weak States FewEdges Homogeneous OnlyText Definition
CHECK_DEADLOCK FALSE
