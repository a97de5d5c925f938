SPECIFICATION Spec
CONSTANTS N = 4
          MAXIMP = 3
          CYCLES = FALSE
INVARIANTS OnceEach ImportsFirst MainLast Bounded
CHECK_DEADLOCK FALSE
