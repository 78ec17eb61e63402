SPECIFICATION MSpec
CONSTANTS
  Objs = {1, 2}
  MKinds = {"int", "ints", "string"}
  MNames = {"a", "b"}
  MVals <- MValsDef
  MaxOps = 5
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
