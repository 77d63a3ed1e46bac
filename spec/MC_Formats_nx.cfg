SPECIFICATION Spec
CONSTANTS N = 3  Fmt = "nx"  MapBy = "nodes"  ValuesBy = "nodes"
INVARIANTS MatrixIsMap ValuesAligned LabelsByArea
CHECK_DEADLOCK FALSE
