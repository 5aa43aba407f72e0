SPECIFICATION MSpec
CONSTANTS
  Scale = 1
  Sys = {1, 2, 3}
  MaxOps = 5
  RateSet = {0, 4, 8}
  BhpSet = {1, 2}
  Gen = FALSE
  GenDepth = 0
INVARIANTS Remedy GroupsFollow
PROPERTIES Shut1 One Adds Replaced
