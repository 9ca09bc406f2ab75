SPECIFICATION Spec
CONSTANTS Steps = 8
          Sizes = {1, 4, 300, 5000, 8189, 8190, 8191, 8192, 8193, 20000}
CHECK_DEADLOCK FALSE
