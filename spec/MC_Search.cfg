SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  MaxCols = 2
INVARIANTS Window Answer
PROPERTIES Shrinks Terminates
CHECK_DEADLOCK FALSE
