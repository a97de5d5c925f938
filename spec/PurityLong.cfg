SPECIFICATION Spec
CONSTANTS LEN = 9
          OBJS = 2
          PROGS = 3
INVARIANT Functional
CHECK_DEADLOCK FALSE
