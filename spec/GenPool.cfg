SPECIFICATION GSpec
CONSTANTS NT = 3
          MADE = {"-", "k", "x", "kx", "D", "z"}
          LIVE = 5
          REFS = 2
VIEW view
INVARIANTS RangesDisjoint InUseBounded CountBounded ExactWhenIdle Owned AllBack
CHECK_DEADLOCK FALSE
