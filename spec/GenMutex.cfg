SPECIFICATION GSpec
CONSTANTS NT = 3
          KINDS = {"lock", "try", "unlock", "g", "u", "elock", "etry", "eunlock"}
VIEW view
INVARIANTS Exclusion SectionOwned
CHECK_DEADLOCK FALSE
