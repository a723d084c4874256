SPECIFICATION HSpec
INVARIANTS HTypeOK EmitCase
CHECK_DEADLOCK FALSE
