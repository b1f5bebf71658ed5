SPECIFICATION MCSpec
CONSTANTS NT = 2
          MAXID = 3
          REQ = 2
          EPB = 2
          SCAL = TRUE
          SHARE = TRUE
INVARIANTS RangesDisjoint InUseBounded CountBounded ExactWhenIdle Owned AllBack NeverStuck LiveFits
PROPERTIES LwFalls
CHECK_DEADLOCK FALSE
