SPECIFICATION Spec
CONSTANTS LF = 90 Buckets = {4, 8} KeySeq <- Keys6 Vals = {0} Reserves = {0, 4}
VIEW View
INVARIANTS SizeOK UsedOK RunsOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
