SPECIFICATION Spec
INVARIANT TypeInv
CHECK_DEADLOCK FALSE
