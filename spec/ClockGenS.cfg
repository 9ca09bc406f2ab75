INIT Init
NEXT Next
CONSTANTS What = "show"  MaxLen = 1  MinLen = 1
CHECK_DEADLOCK FALSE
