CONSTANTS MaxParts = 5
 MinParts = 5
 Threads = {1,2}
 MaxMsgs = 1
 MaxExec = 1
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
