SPECIFICATION MSpec
CONSTANTS MaxOps = 3
 Deep = TRUE
INVARIANT Laws
VIEW MView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
