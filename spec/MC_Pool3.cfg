SPECIFICATION MCSpec
CONSTANTS NT = 3
          MAXID = 4
          REQ = 2
          EPB = 1
          SCAL = FALSE
          SHARE = FALSE
INVARIANTS RangesDisjoint InUseBounded CountBounded ExactWhenIdle Owned AllBack NeverStuck LiveFits
PROPERTIES LwFalls
CHECK_DEADLOCK FALSE
