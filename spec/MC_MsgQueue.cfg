SPECIFICATION MCSpec
CONSTANTS NT = 2
          MAXID = 3
          SIZE = 2
          LOCK = FALSE
          NS = 0
          STAT = TRUE
          ABORTS = TRUE
          KINDS = {0, 2, 3}
INVARIANTS ConservesSlots QueuedAlive NoDuplicates OneOwner RangesDisjoint DispatchAlive Exclusion LockOwners CountBounded ExactWhenIdle OrderKept WaitsOnlyIfItMust AfterDestroy NobodyKeptByAbort
PROPERTIES NothingAfterAbort HwRises
CHECK_DEADLOCK FALSE
