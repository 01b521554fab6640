SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Complete
INVARIANT Sound
INVARIANT Waits
INVARIANT Decides
PROPERTY Absorbing
