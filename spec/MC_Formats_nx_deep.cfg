SPECIFICATION Spec
CONSTANTS N = 4  Fmt = "nx"  MapBy = "nodes"  ValuesBy = "nodes"
INVARIANTS MatrixIsMap ValuesAligned LabelsByArea
CHECK_DEADLOCK FALSE
