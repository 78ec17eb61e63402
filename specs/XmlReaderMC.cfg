SPECIFICATION MSpec
CONSTANTS
  Readers = {1, 2}
  FileIds = {1, 2}
  Types = {"Own", "GearParameters"}
  MaxOps = 6
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT OnlyComplete Sections
CHECK_DEADLOCK FALSE
