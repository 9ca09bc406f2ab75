CONSTANTS MaxParts = 14
 MinParts = 6
 MaxExec = 4
 Dicts = {0,1,3}
 Frags = {0,1,2}
 Threads = {1,2,16}
 Flags = {TRUE,FALSE}
 Sites = {0,1,2}
 Times = {1,2,3,4}
 MaxMsgs = 2
 Bulk = {20}
 Pads = {5,512}
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
