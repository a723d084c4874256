SPECIFICATION HSpec
CONSTANTS
  Wide = {1, 2}
  Narrow = {3, 6, 7, 8, 9, 10, 12, 14}
  Spare = 2
INVARIANTS SameVerdict Decodes PrefixFree OnesFree EmitShape
CHECK_DEADLOCK FALSE
