SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Reads
INVARIANT Refuses
INVARIANT RefusesMost
INVARIANT Raw
INVARIANT Reported
