INIT Init
NEXT Next
CONSTANTS
 What = "random"
 MaxLen = 9
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
