SPECIFICATION Spec
CONSTANT MaxOps = 7
  IsTerrain <- AnyTerrain
INVARIANTS Real Once0 HasIsHas Seen0 NothingAlone
PROPERTIES Kept0 Refused Stays Remembered
CHECK_DEADLOCK FALSE
