SPECIFICATION CSpec
CONSTANTS
  Shapes <- SmallShapes
  Looks = {1, 2, 3}
INVARIANTS Contained NothingDropped EmitCase
PROPERTY Ends
CHECK_DEADLOCK FALSE
