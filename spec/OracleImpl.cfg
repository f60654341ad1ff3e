SPECIFICATION Spec
CONSTANTS Chars = {0, 1, 3} MaxLen = 5 K = 4
INVARIANTS ImageOK LinksOK TransOK BasesDistinct BasesMarked Weak States FewEdges Homogeneous OnlyText Definition EmitText
CHECK_DEADLOCK FALSE
