SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxSize = 3
  MaxElems = 9
INVARIANTS LookupInverse Unique Addresses
CHECK_DEADLOCK FALSE
