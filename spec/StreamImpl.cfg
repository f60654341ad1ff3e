SPECIFICATION Spec
CONSTANTS Slots = {0, 1} MaxQ = 2 Elem = 2 Kinds = {"a", "b"}
INVARIANTS ObjOK BytesOK LengthsOK
PROPERTIES Refines EmitStep
CHECK_DEADLOCK FALSE
