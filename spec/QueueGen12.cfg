CONSTANTS
    N = 12
    MaxSize = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
