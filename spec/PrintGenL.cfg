INIT Init
NEXT Next
CONSTANTS
 MinItems = 25
 MaxItems = 45
 Rounds = 3
 Locale = "C"
 Floats = TRUE
CHECK_DEADLOCK FALSE
