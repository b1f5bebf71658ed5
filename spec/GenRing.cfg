SPECIFICATION GSpec
CONSTANTS NT = 3
          CAPS = {1, 2, 3}
          POS = 4
VIEW view
INVARIANTS Bounded ReadyMeansPrimed
CHECK_DEADLOCK FALSE
