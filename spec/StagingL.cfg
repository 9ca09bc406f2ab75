CONSTANTS
    N = 6
    Sizes = {1, 2}
    MaxRecs = 5
    Weak = FALSE
    Fenced = TRUE
SPECIFICATION Fair
PROPERTIES Progress
CHECK_DEADLOCK FALSE
