SPECIFICATION Spec
CONSTANTS
  MaxAxes = 4
  MaxSize = 1
INVARIANTS Rejected Accepted
CHECK_DEADLOCK FALSE
