INIT Init
NEXT Next
INVARIANT SmallOK
INVARIANT Laws
CHECK_DEADLOCK FALSE
