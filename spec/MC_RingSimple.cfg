SPECIFICATION MCSpec
CONSTANTS REQS = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16}
          MM = 23
INVARIANTS Bounded SizeRight TicketsRight FullOrNot
CHECK_DEADLOCK FALSE
