CONSTANTS MaxParts = 4
 Times = {1,2}
 Threads = {1,2}
 MaxMsgs = 2
 MaxExec = 1
 Stages = 3
 FlagEnds = FALSE
 LateShift = FALSE
 CheckFirstOnly = FALSE
 SeqTies = TRUE
SPECIFICATION Spec
INVARIANTS Correct InBounds
CHECK_DEADLOCK FALSE
