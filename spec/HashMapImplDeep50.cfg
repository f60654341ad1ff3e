SPECIFICATION Spec
CONSTANTS LF = 50 Buckets = {1, 8} KeySeq <- Keys8 Vals = {0} Reserves = {0, 5}
VIEW View
INVARIANTS SizeOK UsedOK RunsOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
