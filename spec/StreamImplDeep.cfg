SPECIFICATION Spec
CONSTANTS Slots = {0, 1} MaxQ = 3 Elem = 2 Kinds = {"a", "b", "c"}
INVARIANTS ObjOK BytesOK LengthsOK
PROPERTIES Refines
CHECK_DEADLOCK FALSE
