SPECIFICATION TraceSpec
CONSTANTS
    Threads <- TraceThreads
    Files = {"compressedLog", "f1", "f2", "f3"}
    InitFile = "compressedLog"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
