SPECIFICATION Spec
CONSTANTS MaxMsgs = 40
          MaxSegs = 1
          MaxExecs = 1
CHECK_DEADLOCK FALSE
