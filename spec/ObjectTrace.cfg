SPECIFICATION TSpec
CONSTANT Lanes = 16
VIEW View
INVARIANTS OTypeOK
CHECK_DEADLOCK FALSE
