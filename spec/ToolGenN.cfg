SPECIFICATION Spec
CONSTANTS MaxMsgs = 12
          MaxSegs = 3
          MaxExecs = 3
CHECK_DEADLOCK FALSE
