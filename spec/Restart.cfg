SPECIFICATION RSpec
CONSTANTS
  Grids <- SmallGrids
  RIs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 18, 65535}
  NScans = 1
INVARIANTS InStep Numbers Enough EmitCase
PROPERTY Ends
CHECK_DEADLOCK FALSE
