SPECIFICATION MSpec
CONSTANTS
  Mergers = {1}
  FileIds = {1, 2}
  MaxOps = 7
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Laws
PROPERTY Frame
CHECK_DEADLOCK FALSE
