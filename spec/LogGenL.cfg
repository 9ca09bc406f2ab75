CONSTANTS MaxParts = 9
 MinParts = 3
 MaxExec = 3
 Dicts = {0,6,12}
 Frags = {1,4,7}
 Threads = {1,9}
 Flags = {TRUE,FALSE}
 Sites = {0,4,5,6,7,8}
 Times = {1,900000}
 MaxMsgs = 1
 Bulk = {10}
 Pads = {5}
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
