SPECIFICATION MCSpec
CONSTANTS N = 4
          V = 1
          X = 1
          T = 2
INVARIANTS Recognised RecognisedToo Disjoint AllReach OverIsClosed NeverBlocked Final
PROPERTIES SameNumber
CHECK_DEADLOCK FALSE
