SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS FeasibleWhenComplete OneComponentAtATime NeverStuck
PROPERTY AllDelivered
CHECK_DEADLOCK FALSE
