INIT Init
NEXT Next
CONSTANTS
 What = "short"
 MaxLen = 3
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
