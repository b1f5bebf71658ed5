SPECIFICATION GSpec
CONSTANTS NT = 3
          MAXA = 2
          CONFS = {0, 1, 2, 3, 4}
VIEW view
INVARIANTS CountInRange OneFunctor
CHECK_DEADLOCK FALSE
