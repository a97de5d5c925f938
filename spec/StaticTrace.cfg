SPECIFICATION Spec
INVARIANT ScopesBalanced
CHECK_DEADLOCK FALSE
