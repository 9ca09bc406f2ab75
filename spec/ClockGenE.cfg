INIT Init
NEXT Next
CONSTANTS What = "all"  MaxLen = 3  MinLen = 2
CHECK_DEADLOCK FALSE
