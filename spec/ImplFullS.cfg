CONSTANTS
    Prog <- ProgFullS
    Cap = 1
    OutCap = 2
    Chunk = 1
    Spurious = 0
    Eintr = FALSE
SPECIFICATION Spec
INVARIANTS BufferOk OutputOk NoOverwrite DictFirst UniqueIds Reclaim ExitDurable IndexOk
PROPERTIES RefinesSpec
CHECK_DEADLOCK FALSE
