SPECIFICATION MCSpec
CONSTANTS NT = 3
          LIM = 2
INVARIANTS TypeOK CountInRange OneFunctor FunctorOwner WaitsOnlyIfItMust Clamped
PROPERTIES Undone AbortStays NothingTakenAfterAbort
CHECK_DEADLOCK FALSE
