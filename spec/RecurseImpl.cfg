SPECIFICATION Spec
CONSTANTS MaxNodes = 5 Cells = {c1, c2, c3}
INVARIANTS Live WalkOK Others Emit
PROPERTIES Refines
CHECK_DEADLOCK FALSE
