SPECIFICATION Spec
CONSTANTS
  MaxSize = 4
  MaxLen = 4
INVARIANTS LoopInv Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
