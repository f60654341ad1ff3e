SPECIFICATION Spec
CONSTANTS LF = 99 Buckets = {2, 4} KeySeq <- Keys8 Vals = {0} Reserves = {0, 9}
VIEW View
INVARIANTS SizeOK UsedOK RunsOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
