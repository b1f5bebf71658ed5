SPECIFICATION MCSpec
CONSTANTS NT = 3
          MAXV = 3
          CAPS = {1, 2}
INVARIANTS Bounded ReadyMeansPrimed FIFO Once NothingBeforePrimed WaitsOnlyIfItMust
PROPERTIES NothingAfterAbort AbortForever PrimedOnce
CHECK_DEADLOCK FALSE
