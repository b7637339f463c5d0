SPECIFICATION Spec
CONSTANTS
  MaxDim = 4
  MaxSize = 4
  MaxElems = 16
INVARIANTS LookupInverse Unique Addresses
CHECK_DEADLOCK FALSE
