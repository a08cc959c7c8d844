CONSTANTS Fine = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Sign EmptyGivesNothing Gate MeltGrows Demand DemandGrows ContentGrows Partial Fills Production Rest
