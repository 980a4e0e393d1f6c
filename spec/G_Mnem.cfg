INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
INVARIANT Emitted
CONSTANTS
  WordBits = 11
  Ratio = 32
  Octet = 8
  SpaceC = 32
  EntLens <- MEntLens
  SumBits <- MSum
  IsSpaceC <- MSpace
