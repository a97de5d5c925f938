SPECIFICATION Spec
INVARIANT BlocksNested
CHECK_DEADLOCK FALSE
