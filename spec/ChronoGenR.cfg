CONSTANTS MaxParts = 14
 MinParts = 6
 Threads = {1,2,3}
 MaxMsgs = 2
 MaxExec = 1
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
