SPECIFICATION Spec
CONSTANTS
  MaxDim = 4
  MaxSize = 4
  MaxElems = 16
INVARIANTS RankUnrank Reduction
CHECK_DEADLOCK FALSE
