SPECIFICATION Spec
CONSTANTS N = 4  Fmt = "dict"  MapBy = "sorted"  ValuesBy = "sorted"
INVARIANTS MatrixIsMap ValuesAligned LabelsByArea
CHECK_DEADLOCK FALSE
