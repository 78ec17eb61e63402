SPECIFICATION MSpec
CONSTANTS Stores = {1, 2, 3}
 MaxOps = 7
 Lists <- ListsDeep
INVARIANT Laws
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
