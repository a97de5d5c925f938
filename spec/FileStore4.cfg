SPECIFICATION Spec
CONSTANTS
  Paths = {1, 2}
  Contents = {1, 2}
  K = 4
INVARIANT Report
PROPERTY ReadYourWrite
CHECK_DEADLOCK FALSE
