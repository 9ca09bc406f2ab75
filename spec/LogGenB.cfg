CONSTANTS MaxParts = 5
 MinParts = 3
 MaxExec = 2
 Dicts = {0,70000}
 Frags = {300}
 Threads = {1,9}
 Flags = {FALSE}
 Sites = {0,255,256,65535,65536,69999}
 Times = {1,900000}
 MaxMsgs = 1
 Bulk = {20}
 Pads = {}
INIT Init
NEXT Next
INVARIANT GenOk
CHECK_DEADLOCK FALSE
