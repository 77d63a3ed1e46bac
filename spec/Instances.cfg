INIT Init
NEXT Next
CONSTANTS Kind = "search"  N = 4  V = 1  X = 0  T = 0
CHECK_DEADLOCK FALSE
