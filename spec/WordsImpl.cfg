SPECIFICATION Spec
CONSTANTS Highs <- SomeHighs
INVARIANTS PopOK ZerosOK FieldsOK SelOK SwapOK ExtractOK XorMapOK Emit
CHECK_DEADLOCK FALSE
