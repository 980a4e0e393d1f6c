INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
  WordBits = 11
  Ratio = 32
  Octet = 8
  SpaceC = 32
  EntLens <- MEntLens
  SumBits <- MSum
  IsSpaceC <- MSpace
