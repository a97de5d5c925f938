SPECIFICATION Spec
CONSTANTS LEN = 4
          OBJS = 2
          PROGS = 2
INVARIANT Functional
CHECK_DEADLOCK FALSE
