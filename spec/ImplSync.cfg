CONSTANTS
    Prog <- ProgSync
    Cap = 2
    OutCap = 3
    Chunk = 2
    Spurious = 1
    Eintr = FALSE
SPECIFICATION Spec
INVARIANTS BufferOk OutputOk NoOverwrite DictFirst UniqueIds Reclaim ExitDurable IndexOk
PROPERTIES RefinesSpec
CHECK_DEADLOCK FALSE
