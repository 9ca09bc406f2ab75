CONSTANTS Sizes = {1, 3}
 BufSizes = {10, 60, 80}
 MaxMsgs = 3
 MaxBufs = 2
SPECIFICATION Spec
INVARIANT Inside
PROPERTY Progress
CHECK_DEADLOCK FALSE
