INIT Init
NEXT Next
CONSTANTS
 What = "short"
 MaxLen = 4
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
