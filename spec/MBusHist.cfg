SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Pure
PROPERTY Private
