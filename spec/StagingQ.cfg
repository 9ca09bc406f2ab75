CONSTANTS
    N = 7
    Sizes = {1, 2, 3}
    MaxRecs = 5
    Weak = FALSE
    Fenced = TRUE
SPECIFICATION Spec
INVARIANTS Fifo WholeRecords NoFalseEmpty Inside NoOverlap Lossless
CHECK_DEADLOCK FALSE
