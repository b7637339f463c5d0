SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxSize = 4
  MaxElems = 12
INVARIANTS RankUnrank Reduction
CHECK_DEADLOCK FALSE
