SPECIFICATION Spec
CONSTANTS MaxEvents = 2
 MaxJobs = 3
 Years = {1, 2}
 Mags = {1, 2}
 TableRows = 2
INVARIANTS OneFlagEach WorkingIsUnflagged DefaultExcludesNothing SelectedAreUnflagged SelectMonotone SelectOrderFree NoTableOnlyFlags
PROPERTIES FlaggedStays CatalogueConstant
CHECK_DEADLOCK FALSE
