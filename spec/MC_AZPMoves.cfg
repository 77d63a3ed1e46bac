INIT Init
NEXT NextAny
CONSTANTS N = 4
          V = 0
INVARIANTS Regionalization
PROPERTIES Legal
VIEW vars
CHECK_DEADLOCK FALSE
