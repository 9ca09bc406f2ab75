SPECIFICATION Spec
CONSTANTS
    Buffers = {1, 2}
    Cap = 4
    MaxTime = 4
    MaxEvents = 8
INVARIANT Right
CHECK_DEADLOCK FALSE
