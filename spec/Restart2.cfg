SPECIFICATION RSpec
CONSTANTS
  Grids <- SmallGrids
  RIs = {0, 1, 2, 3, 5, 9}
  NScans = 2
INVARIANTS InStep Numbers Enough EmitCase
PROPERTY Ends
CHECK_DEADLOCK FALSE
