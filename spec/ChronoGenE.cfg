CONSTANTS MaxParts = 4
 MinParts = 2
 Threads = {1,2}
 MaxMsgs = 1
 MaxExec = 1
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
