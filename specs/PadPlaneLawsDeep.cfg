SPECIFICATION MSpec
CONSTANTS Ids = {1}
 MaxOps = 6
 MaxRows = 12
VIEW MView
CONSTRAINT Bound
INVARIANT Laws
CHECK_DEADLOCK FALSE
