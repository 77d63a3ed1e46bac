SPECIFICATION BuildSpec
CONSTANTS N = 3
          V = 1
          X = 1
          T = 2
PROPERTIES Ends
CHECK_DEADLOCK FALSE
