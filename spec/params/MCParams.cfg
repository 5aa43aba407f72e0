SPECIFICATION MSpec
CONSTANTS
  Names = {"a", "b"}
  Vals = {"1"}
  MaxOps = 4
  GenDepth = 0
INVARIANTS TreeOK FoundAtOwnPath Nearest HandlesOK RoundTrip
PROPERTY PutWins
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
