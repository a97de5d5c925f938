SPECIFICATION Spec
CONSTANTS N = 3
          MAXIMP = 2
          CYCLES = TRUE
INVARIANTS OnceEach ImportsFirst MainLast Bounded
CHECK_DEADLOCK FALSE
