SPECIFICATION Spec
CONSTANTS
  MaxAxes = 3
  MaxSize = 1
INVARIANTS Rejected Accepted
CHECK_DEADLOCK FALSE
