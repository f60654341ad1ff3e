SPECIFICATION Spec
CONSTANTS LF = 90 Buckets = {8} KeySeq <- Keys8w Vals = {0} Reserves = {0}
VIEW View
INVARIANTS SizeOK UsedOK RunsOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
