INIT Init
NEXT Next
CONSTANTS N = 3
          V = 2
INVARIANTS Telescopes OnlyNames AloneIsFree
CHECK_DEADLOCK FALSE
