SPECIFICATION SpecAZP
CONSTANTS N = 3
          V = 3
INVARIANTS Regionalization LocalOptimum BoundedCalm
PROPERTIES Legal Descent Terminates
CHECK_DEADLOCK FALSE
