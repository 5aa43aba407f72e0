SPECIFICATION MSpec
CONSTANTS
  Kws = {"WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "WELTARG", "WELOPEN", "GRUPTREE", "GCONPROD", "GCONINJE", "WGRUPCON", "WPOLYMER", "TUNING", "DENSITY"}
  Ids = {1, 2, 3, 4, 5}
  MaxItems = 20
  GenDepth = 20
INVARIANT Emit
CHECK_DEADLOCK FALSE
