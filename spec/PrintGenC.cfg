INIT Init
NEXT Next
CONSTANTS
 MinItems = 1
 MaxItems = 8
 Rounds = 6
 Locale = "C"
 Floats = TRUE
CHECK_DEADLOCK FALSE
