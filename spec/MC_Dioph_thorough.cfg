SPECIFICATION Spec
CONSTANTS
  MaxCoef = 5
  MaxLen = 4
  MaxRhs = 6
INVARIANTS Dioph GcdOK Spans
CHECK_DEADLOCK FALSE
