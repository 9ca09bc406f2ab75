INIT Init
NEXT Next
CONSTANTS
 MinItems = 1
 MaxItems = 8
 Rounds = 6
 Locale = "UTF-8"
 Floats = TRUE
CHECK_DEADLOCK FALSE
