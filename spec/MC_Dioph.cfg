SPECIFICATION Spec
CONSTANTS
  MaxCoef = 6
  MaxLen = 3
  MaxRhs = 4
INVARIANTS Dioph GcdOK Spans
CHECK_DEADLOCK FALSE
