INIT Init
NEXT Next
CONSTANTS
 What = "single"
 MaxLen = 1
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
