CONSTANTS MaxParts = 12
 MinParts = 5
 Threads = {1,2}
 MaxMsgs = 2
 MaxExec = 3
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
