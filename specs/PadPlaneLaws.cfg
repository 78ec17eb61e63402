SPECIFICATION MSpec
CONSTANTS Ids = {1}
 MaxOps = 4
 MaxRows = 6
VIEW MView
CONSTRAINT Bound
INVARIANT Laws
CHECK_DEADLOCK FALSE
