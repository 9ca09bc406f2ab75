CONSTANTS
    Prog <- ProgExit
    Cap = 2
    OutCap = 3
    Chunk = 2
    Spurious = 0
    Eintr = FALSE
    MutexGate <- FairMutex
SPECIFICATION Fair

PROPERTIES Termination SyncsReturn
CHECK_DEADLOCK FALSE
