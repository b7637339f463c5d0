SPECIFICATION Spec
CONSTANTS
  Shapes1 <- ShapesThorough
  Steps <- StepsThorough
INVARIANTS SameMade SameSlice SameRead SameSet SameCopy BigCounts
CHECK_DEADLOCK FALSE
