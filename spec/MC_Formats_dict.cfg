SPECIFICATION Spec
CONSTANTS N = 3  Fmt = "dict"  MapBy = "sorted"  ValuesBy = "sorted"
INVARIANTS MatrixIsMap ValuesAligned LabelsByArea
CHECK_DEADLOCK FALSE
