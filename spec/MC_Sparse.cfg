SPECIFICATION Spec
CONSTANTS
  Shapes1 <- ShapesQuick
  Steps <- StepsQuick
INVARIANTS SameMade SameSlice SameRead SameSet SameCopy BigCounts
CHECK_DEADLOCK FALSE
