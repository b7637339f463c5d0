SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxSize = 5
          Extra = 2
CHECK_DEADLOCK FALSE
