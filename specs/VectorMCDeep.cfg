SPECIFICATION MSpec
CONSTANTS Ids = {1, 2}
 MaxOps = 3
 Comp <- CompMore
INVARIANT Laws
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
