INIT Init
NEXT Next
CONSTANTS What = "some"  MaxLen = 14  MinLen = 6
CHECK_DEADLOCK FALSE
