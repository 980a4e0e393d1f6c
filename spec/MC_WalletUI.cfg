SPECIFICATION Spec
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Accepted Sharp Told
CONSTANTS
  SeedKey <- TSeedKey
  Hmac <- THmac
  Left <- TLeft
  Right <- TRight
  LeftOK <- TLeftOK
  ScalarOK <- TScalarOK
  ScalarPlus <- TScalarPlus
  Point <- TPoint
  PointPlus <- TPointPlus
  PointOK <- TPointOK
  Identifier <- TIdentifier
  Checksum <- TChecksum
  IsHard <- THard
  PrvVersions <- TPrv
  PubVersions <- TPub
  PairedPub <- TPairedPub
  DefaultPrv <- TDefaultPrv
  DefaultPub <- TDefaultPub
  MaxDepth = 2
  SumLen = 1
  VerLen = 1
  NumLen = 1
  CodeLen = 1
  KeyLen = 1
  Root <- TRoot
  SlashC = 47
  TickC = 39
  DigitBase = 48
  IsBlank <- TBlank
  Number <- TNumber
  Soft <- TSoft
  Harden <- THarden
  Soften <- TSoften
  Numerals <- TNumerals
  RootNumber <- TRootNumber
  WClaims <- TNone
  GenNames <- TNone
  RangeNames <- TNone
  NoRoot <- TNoRoot
  MLetter = 109
  Nth <- TNth
  Size <- TSize
  AnyHard <- TAnyHard

  SeedFor <- TSeedFor
  MasterOf <- TMasterOf
  TextOf <- TTextOf
  KeyIn <- TKeyIn
  WordsIn <- TWordsIn
  Facts <- TFacts
