SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OneLineEach
INVARIANT CauseFirst
INVARIANT Indent
PROPERTY Append1
