SPECIFICATION MCSpec
CONSTANT NT = 3
INVARIANTS Exclusion SectionOwned WaitsOnlyIfItMust
PROPERTIES Handover OnlyOwnerReleases ErrorsChangeNothing
CHECK_DEADLOCK FALSE
