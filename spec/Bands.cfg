SPECIFICATION Spec
CONSTANTS B = 5
 W = 3
 MayFail = TRUE
INVARIANTS OwnSlice NoSharing Deterministic Quiet
PROPERTY Terminates
