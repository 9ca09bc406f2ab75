SPECIFICATION Spec
CONSTANTS NMain = 8
          NHdr = 2
          NOther = 3
          Forms = {1, 4}
INVARIANT Reads
CHECK_DEADLOCK FALSE
