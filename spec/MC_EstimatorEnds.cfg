SPECIFICATION Spec
CONSTANTS N = 3  Fits = 1  Copies = TRUE  Forgets = TRUE  PublishesLast = TRUE
INVARIANTS CallersCells ShownIsLabels
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
