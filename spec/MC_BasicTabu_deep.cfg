SPECIFICATION Spec
CONSTANTS N = 4
          V = 99
          Lens = {99, 0, 1, 2}
          Reps = {1, 2}
INVARIANTS Regionalization BoundedVisits
PROPERTIES Legal Descent Honoured Terminates
CHECK_DEADLOCK FALSE
