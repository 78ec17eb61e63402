SPECIFICATION MSpec
CONSTANTS
  Mgrs = {1, 2}
  FileIds = {1, 2}
  MSlots = {"EcalBarrel", "Lcal", "VXD"}
  MNames = {"a"}
  MaxOps = 4
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT FilesRoundTrip FileStable ForwardAngle
CHECK_DEADLOCK FALSE
