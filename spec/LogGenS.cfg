CONSTANTS MaxParts = 4
 MinParts = 1
 MaxExec = 2
 Dicts = {0,1}
 Frags = {1}
 Threads = {1,20}
 Flags = {TRUE,FALSE}
 Sites = {0}
 Times = {1,2}
 MaxMsgs = 1
 Bulk = {}
 Pads = {3}
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
