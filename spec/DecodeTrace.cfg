SPECIFICATION TSpec
CONSTANT Lanes = 16
VIEW View
INVARIANTS TypeOK ScanReady Progression
CHECK_DEADLOCK FALSE
