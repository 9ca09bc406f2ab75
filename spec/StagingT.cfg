CONSTANTS
    N = 9
    Sizes = {1, 2, 4}
    MaxRecs = 7
    Weak = FALSE
    Fenced = TRUE
SPECIFICATION Spec
INVARIANTS Fifo WholeRecords NoFalseEmpty Inside NoOverlap Lossless
CHECK_DEADLOCK FALSE
