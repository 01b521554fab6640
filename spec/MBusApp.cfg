SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT InSync
INVARIANT NoHalfRecord
INVARIANT NeverLost
INVARIANT Trailer
PROPERTY Monotone
