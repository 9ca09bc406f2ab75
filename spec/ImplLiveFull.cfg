CONSTANTS
    Prog <- ProgFull
    Cap = 1
    OutCap = 2
    Chunk = 1
    Spurious = 0
    Eintr = FALSE
    MutexGate <- FairMutex
SPECIFICATION Fair

PROPERTIES Termination SyncsReturn
CHECK_DEADLOCK FALSE
