SPECIFICATION MSpec
CONSTANTS Dets = {1}
 MaxOps = 5
 Layers <- LayersDeep
 Pts <- PtsDeep
INVARIANT Laws
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
