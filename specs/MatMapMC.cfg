SPECIFICATION MSpec
CONSTANTS Names = {1}
 MaxOps = 4
 Grids <- GridsQuick
 Pts <- PtsQuick
INVARIANT Laws
VIEW MView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
