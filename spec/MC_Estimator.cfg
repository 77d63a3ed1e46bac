SPECIFICATION Spec
CONSTANTS N = 3  Fits = 2  Copies = TRUE  Forgets = TRUE  PublishesLast = TRUE
INVARIANTS CallersCells ShownIsLabels
PROPERTIES Refines
CHECK_DEADLOCK FALSE
