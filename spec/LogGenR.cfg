CONSTANTS MaxParts = 12
 MinParts = 4
 MaxExec = 1
 Dicts = {0,3}
 Frags = {0,1,2}
 Threads = {0,15,16,300,70000}
 Flags = {TRUE,FALSE}
 Sites = {0,1,2,3}
 Times = {1,2,3,900000}
 MaxMsgs = 2
 Bulk = {20,60}
 Pads = {1,7,511}
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
