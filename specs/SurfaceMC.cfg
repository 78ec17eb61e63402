SPECIFICATION MSpec
CONSTANTS Stores = {1, 2}
 MaxOps = 5
 Lists <- ListsQuick
INVARIANT Laws
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
