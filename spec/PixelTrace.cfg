SPECIFICATION Spec
CONSTANTS Lanes = 16
 Chunk = 256
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
