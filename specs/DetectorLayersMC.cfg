SPECIFICATION LSpec
CONSTANTS
  Thick = {1, 2}
  Cell = {0, 3}
  Absorber = {0, 1}
  Gaps <- GapsDef
  MaxLayers = 4
INVARIANT GroupingSafe GroupsMaximal Follow
CHECK_DEADLOCK FALSE
