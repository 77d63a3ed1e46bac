SPECIFICATION Spec
CONSTANTS N = 3
          V = 1
          Lens = {99, 0, 1, 2}
          Reps = {1, 2, 3}
INVARIANTS Regionalization BoundedVisits
PROPERTIES Legal Descent Honoured Terminates
CHECK_DEADLOCK FALSE
