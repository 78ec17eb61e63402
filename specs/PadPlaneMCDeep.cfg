SPECIFICATION MSpec
CONSTANTS Ids = {1, 2, 3}
 MaxOps = 5
 MaxRows = 8
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
