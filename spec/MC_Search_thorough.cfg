SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  MaxCols = 3
INVARIANTS Window Answer
PROPERTIES Shrinks Terminates
CHECK_DEADLOCK FALSE
