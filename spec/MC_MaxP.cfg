SPECIFICATION MCSpec
CONSTANTS N = 3
          V = 1
          X = 2
          T = 3
INVARIANTS Recognised RecognisedToo Disjoint AllReach OverIsClosed NeverBlocked Final
PROPERTIES SameNumber
CHECK_DEADLOCK FALSE
