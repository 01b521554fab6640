SPECIFICATION Spec
INVARIANT Named
CHECK_DEADLOCK FALSE
