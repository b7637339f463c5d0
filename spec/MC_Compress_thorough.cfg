SPECIFICATION Spec
CONSTANTS
  MaxSize = 6
  MaxLen = 7
INVARIANTS LoopInv Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
