SPECIFICATION MCSpec
CONSTANTS N = 4
          V = 1
INVARIANTS RegionsConnected QuorumKept RightNumber StuckOnlyWithoutCut
PROPERTIES Refines OneMore Ends
CHECK_DEADLOCK FALSE
