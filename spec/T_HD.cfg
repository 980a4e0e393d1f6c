INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
  SeedKey <- RSeedKey
  Hmac <- HMACSHA512
  Left <- RLeft
  Right <- RRight
  LeftOK <- RLeftOK
  ScalarOK <- RScalarOK
  ScalarPlus <- RScalarPlus
  Point <- BaseMul
  PointPlus <- PointAdd
  PointOK <- OnCurve
  Identifier <- HASH160
  Checksum <- Double256
  IsHard <- HBit
  PrvVersions <- RPrv
  PubVersions <- RPub
  PairedPub <- RPairedPub
  DefaultPrv <- RDefaultPrv
  DefaultPub <- RDefaultPub
  MaxDepth = 255
  SumLen = 4
  VerLen = 4
  NumLen = 4
  CodeLen = 32
  KeyLen = 32
  B58 <- RB58
  Claims <- RClaims
  Slots <- RSlots
  EmptyKey <- REmpty
