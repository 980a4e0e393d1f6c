INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
  SeedKey <- RSeedKey
  Hmac <- HMACSHA512
  Left <- RLeft
  Right <- RRight
  LeftOK <- RLeftOK
  ScalarOK <- RScalarOK
  ScalarPlus <- RScalarPlus
  Point <- BaseMul
  PointPlus <- PointAdd
  PointOK <- OnCurve
  Identifier <- HASH160
  Checksum <- Double256
  IsHard <- HBit
  PrvVersions <- RPrv
  PubVersions <- RPub
  PairedPub <- RPairedPub
  DefaultPrv <- RDefaultPrv
  DefaultPub <- RDefaultPub
  MaxDepth = 255
  SumLen = 4
  VerLen = 4
  NumLen = 4
  CodeLen = 32
  KeyLen = 32
  Root <- RRootC
  SlashC = 47
  TickC = 39
  DigitBase = 48
  IsBlank <- RBlank
  Number <- RNumber
  Soft <- RSoft
  Harden <- SetH
  Soften <- ClearH
  Numerals <- RNumerals
  RootNumber <- RRootNumber
  WClaims <- UNone
  GenNames <- UNone
  RangeNames <- UNone
  NoRoot <- REmpty
  MLetter = 109
  Nth <- UNth
  Size <- USize
  AnyHard <- UAnyHard
  SeedFor <- USeedFor
  MasterOf <- UMasterOf
  TextOf <- UTextOf
  KeyIn <- UKeyIn
  WordsIn <- UWordsIn
  Facts <- UFacts
