CONSTANTS MaxParts = 5
 MinParts = 3
 MaxExec = 3
 Dicts = {0,1,2}
 Frags = {1}
 Threads = {1}
 Flags = {FALSE}
 Sites = {0,1}
 Times = {1}
 MaxMsgs = 1
 Bulk = {}
 Pads = {}
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
