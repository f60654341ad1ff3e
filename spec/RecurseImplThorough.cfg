SPECIFICATION Spec
CONSTANTS MaxNodes = 6 Cells = {c1, c2, c3, c4}
INVARIANTS Live WalkOK Others
PROPERTIES Refines
CHECK_DEADLOCK FALSE
