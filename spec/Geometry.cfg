SPECIFICATION GSpec
CONSTANTS
  MaxW = 40
  MaxH = 40
INVARIANTS Accepted Minimal Covers
CHECK_DEADLOCK FALSE
