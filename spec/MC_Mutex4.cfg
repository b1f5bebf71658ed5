SPECIFICATION MCSpec
CONSTANT NT = 4
INVARIANTS Exclusion SectionOwned WaitsOnlyIfItMust
PROPERTIES Handover OnlyOwnerReleases ErrorsChangeNothing
CHECK_DEADLOCK FALSE
