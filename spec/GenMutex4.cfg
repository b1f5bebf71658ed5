SPECIFICATION GSpec
CONSTANTS NT = 4
          KINDS = {"lock", "try", "unlock", "g", "u"}
VIEW view
INVARIANTS Exclusion SectionOwned
CHECK_DEADLOCK FALSE
