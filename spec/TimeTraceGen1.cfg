SPECIFICATION Spec
CONSTANTS Steps = 12
          Sizes = {1, 1, 2, 3, 5, 20}
CHECK_DEADLOCK FALSE
