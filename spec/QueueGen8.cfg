CONSTANTS
    N = 8
    MaxSize = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
