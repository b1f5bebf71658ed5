SPECIFICATION MCSpec
CONSTANTS NT = 3
          MAXV = 4
          CAPS = {1, 2, 3}
INVARIANTS Bounded ReadyMeansPrimed FIFO Once NothingBeforePrimed WaitsOnlyIfItMust
PROPERTIES NothingAfterAbort AbortForever PrimedOnce
CHECK_DEADLOCK FALSE
