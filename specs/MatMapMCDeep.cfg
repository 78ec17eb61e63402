SPECIFICATION MSpec
CONSTANTS Names = {1}
 MaxOps = 4
 Grids <- GridsDeep
 Pts <- PtsDeep
INVARIANT Laws
VIEW MView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
