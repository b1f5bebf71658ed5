SPECIFICATION GSpec
CONSTANTS NT = 3
          SIZES = {1, 2}
          LOCK = FALSE
          NS = 0
          FLAGS = {"-", "k", "g"}
          GETS = {0, 4}
          MISC = {"abort"}
VIEW view
INVARIANTS ConservesSlots QueuedAlive NoDuplicates OneOwner DispatchAlive CountBounded ExactWhenIdle
CHECK_DEADLOCK FALSE
