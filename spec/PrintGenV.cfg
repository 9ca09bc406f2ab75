INIT Init
NEXT Next
CONSTANTS
 MinItems = 140
 MaxItems = 230
 Rounds = 2
 Locale = "C"
 Floats = TRUE
CHECK_DEADLOCK FALSE
