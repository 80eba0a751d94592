SPECIFICATION Spec
CONSTANTS MaxEvents = 3
 MaxJobs = 3
 Years = {1, 2}
 Mags = {1, 2, 3}
 TableRows = 1
INVARIANTS OneFlagEach WorkingIsUnflagged DefaultExcludesNothing SelectedAreUnflagged SelectMonotone SelectOrderFree NoTableOnlyFlags
PROPERTIES FlaggedStays CatalogueConstant
CHECK_DEADLOCK FALSE
