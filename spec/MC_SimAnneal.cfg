SPECIFICATION Spec
CONSTANTS S = 3
          MaxIts = {0, 1, 2}
          Terms = {1, 3}
          Stops = {1, 2}
          Reps = {1, 2}
INVARIANTS Bounded NoRecurrence RoundLimit
PROPERTIES Terminates CoolsOncePerRound UnchangedEndsRound
CHECK_DEADLOCK FALSE
