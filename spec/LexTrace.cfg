SPECIFICATION Spec
PROPERTY Progress
CHECK_DEADLOCK FALSE
