SPECIFICATION GSpec
CONSTANTS NT = 2
          SIZES = {1, 2}
          LOCK = FALSE
          NS = 0
          FLAGS = {"-", "k", "kc", "c", "d", "n", "g", "gd"}
          GETS = {0, 1, 2, 3, 4}
          MISC = {"abort", "stat", "name", "purge"}
VIEW view
INVARIANTS ConservesSlots QueuedAlive NoDuplicates OneOwner DispatchAlive CountBounded ExactWhenIdle
CHECK_DEADLOCK FALSE
