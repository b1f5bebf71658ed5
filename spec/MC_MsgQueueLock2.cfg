SPECIFICATION MCSpec
CONSTANTS NT = 2
          MAXID = 2
          SIZE = 2
          LOCK = TRUE
          NS = 2
          STAT = FALSE
          ABORTS = FALSE
          KINDS = {0}
INVARIANTS ConservesSlots QueuedAlive NoDuplicates OneOwner RangesDisjoint DispatchAlive Exclusion LockOwners CountBounded ExactWhenIdle OrderKept WaitsOnlyIfItMust AfterDestroy NobodyKeptByAbort
PROPERTIES NothingAfterAbort HwRises
CHECK_DEADLOCK FALSE
