CONSTANTS MaxParts = 7
 Times = {1,2,3}
 Threads = {0}
 MaxMsgs = 1
 MaxExec = 1
 Stages = 3
 FlagEnds = TRUE
 LateShift = TRUE
 CheckFirstOnly = FALSE
 SeqTies = TRUE
SPECIFICATION Spec
INVARIANTS Correct InBounds
CHECK_DEADLOCK FALSE
