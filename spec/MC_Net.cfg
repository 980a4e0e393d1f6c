SPECIFICATION Spec
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
VIEW Small
INVARIANTS Obedient Sharp Faithful Own
CONSTANTS
  SeedKey <- TSeedKey
  Hmac <- THmac
  Left <- TLeft
  Right <- TRight
  LeftOK <- TLeftOK
  ScalarOK <- TScalarOK
  ScalarPlus <- TScalarPlus
  Point <- TPoint
  PointPlus <- TPointPlus
  PointOK <- TPointOK
  Identifier <- TIdentifier
  Checksum <- TChecksum
  IsHard <- TIsHard
  PrvVersions <- TPrv
  PubVersions <- TPub
  PairedPub <- TPairedPub
  DefaultPrv <- TDefaultPrv
  DefaultPub <- TDefaultPub
  B58 <- TB58
  MaxDepth = 2
  SumLen = 1
  VerLen = 1
  NumLen = 1
  CodeLen = 1
  KeyLen = 1
  Claims <- TClaims
  Slots <- TSlots
  EmptyKey <- TEmpty
