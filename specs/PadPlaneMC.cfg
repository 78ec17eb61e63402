SPECIFICATION MSpec
CONSTANTS Ids = {1, 2}
 MaxOps = 4
 MaxRows = 6
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
