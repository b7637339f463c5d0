SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxSize = 9
          Extra = 3
CHECK_DEADLOCK FALSE
