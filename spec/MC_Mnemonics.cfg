SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Meets Again Noticed Stale
CONSTANTS
  WordBits = 3
  Ratio = 2
  Octet = 4
  SpaceC = 32
  EntLens <- TEntLens
  SumBits <- TSum
  IsSpaceC <- TSpace
