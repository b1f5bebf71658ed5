SPECIFICATION MCSpec
CONSTANTS NT = 3
          MAXID = 3
          SIZE = 1
          LOCK = FALSE
          NS = 0
          STAT = FALSE
          ABORTS = TRUE
          KINDS = {0}
INVARIANTS ConservesSlots QueuedAlive NoDuplicates OneOwner RangesDisjoint DispatchAlive Exclusion LockOwners CountBounded ExactWhenIdle OrderKept WaitsOnlyIfItMust AfterDestroy NobodyKeptByAbort
PROPERTIES NothingAfterAbort HwRises
CHECK_DEADLOCK FALSE
