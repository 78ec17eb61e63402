SPECIFICATION MSpec
CONSTANTS
  MSlots = {"TPC", "Lcal", "EcalPlug", "VXD"}
  MNames = {"a", "b"}
  MM = {1}
  Pool <- PoolDef
  MaxOps = 5
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS NothingRegisteredIsGone KindsMatch ForwardHaveAngle MatUnderOwnName
CHECK_DEADLOCK FALSE
