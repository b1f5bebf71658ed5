SPECIFICATION MCSpec
CONSTANTS NT = 2
          MAXID = 1
          SIZE = 1
          LOCK = TRUE
          NS = 2
          STAT = FALSE
          ABORTS = FALSE
          KINDS = {0}
INVARIANTS ConservesSlots QueuedAlive NoDuplicates OneOwner RangesDisjoint DispatchAlive Exclusion LockOwners CountBounded ExactWhenIdle OrderKept WaitsOnlyIfItMust AfterDestroy NobodyKeptByAbort
PROPERTIES NothingAfterAbort HwRises
CHECK_DEADLOCK FALSE
