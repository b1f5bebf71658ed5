SPECIFICATION GSpec
CONSTANTS NT = 2
          SIZES = {1}
          LOCK = TRUE
          NS = 2
          FLAGS = {"-", "g"}
          GETS = {0}
          MISC = {}
VIEW view
INVARIANTS Exclusion LockOwners ConservesSlots QueuedAlive NoDuplicates OneOwner DispatchAlive CountBounded ExactWhenIdle
CHECK_DEADLOCK FALSE
