SPECIFICATION GSpec
CONSTANTS B = 6
 W = 3
 MayFail = FALSE
INVARIANTS Emit OwnSlice Deterministic
CHECK_DEADLOCK FALSE
