SPECIFICATION Spec
CONSTANTS
    Buffers = {1, 2}
    Cap = 4
    MaxTime = 3
    MaxEvents = 6
INVARIANT Right
CHECK_DEADLOCK FALSE
