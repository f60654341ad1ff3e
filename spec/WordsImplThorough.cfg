SPECIFICATION Spec
CONSTANTS Highs <- AllHighs
INVARIANTS PopOK ZerosOK FieldsOK SelOK SwapOK ExtractOK XorMapOK
CHECK_DEADLOCK FALSE
