SPECIFICATION Spec
CONSTANTS FirstDay = 0  LastDay = 60000  W = 4  MaxMsgs = 3
INVARIANTS CalendarOk TimesSurvive ZonesOk
CHECK_DEADLOCK FALSE
