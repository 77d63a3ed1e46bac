SPECIFICATION SpecAZP
CONSTANTS N = 4
          V = 1
INVARIANTS Regionalization LocalOptimum BoundedCalm
PROPERTIES Legal Descent Terminates
CHECK_DEADLOCK FALSE
