SPECIFICATION MSpec
CONSTANTS
  NC = 3
  MaxB = 2
  DimMax = 24
  NE = 2
PROPERTIES PCompress PSplit
CHECK_DEADLOCK FALSE
