SPECIFICATION Spec
CONSTANTS N = 3
          V = 3
          MaxIts = {1, 2, 10}
INVARIANTS Regionalization Bounded LocalOptimum NoBetterVisited BestVisited ResultVisited
PROPERTIES Legal Descent Terminates
CHECK_DEADLOCK FALSE
