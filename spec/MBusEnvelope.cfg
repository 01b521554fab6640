SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Exactly
INVARIANT Reported
INVARIANT AnnouncedRight
INVARIANT InTime
PROPERTY OneAcceptingPrefix
PROPERTY Absorbing
