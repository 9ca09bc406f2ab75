CONSTANTS
    N = 6
    Sizes = {1, 2}
    MaxRecs = 5
    Weak = TRUE
    Fenced = FALSE
SPECIFICATION Spec
INVARIANTS Fifo WholeRecords NoFalseEmpty Inside NoOverlap Lossless
CHECK_DEADLOCK FALSE
