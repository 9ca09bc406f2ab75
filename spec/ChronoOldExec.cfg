CONSTANTS MaxParts = 6
 Times = {1,2}
 Threads = {0}
 MaxMsgs = 1
 MaxExec = 2
 Stages = 3
 FlagEnds = TRUE
 LateShift = TRUE
 CheckFirstOnly = TRUE
 SeqTies = TRUE
SPECIFICATION Spec
INVARIANTS Correct InBounds
CHECK_DEADLOCK FALSE
