INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
  SeedKey <- RSeedKey
  Hmac <- HMACSHA512
  Left <- RLeft
  Right <- RRight
  LeftOK <- RLeftOK
  ScalarOK <- RScalarOK
  ScalarPlus <- RScalarPlus
  Point <- BaseMul
  PointPlus <- PointAdd
  PointOK <- OnCurve
  Identifier <- HASH160
  Checksum <- Double256
  IsHard <- HBit
  PrvVersions <- RPrv
  PubVersions <- RPub
  PairedPub <- RPairedPub
  DefaultPrv <- RDefaultPrv
  DefaultPub <- RDefaultPub
  MaxDepth = 255
  SumLen = 4
  VerLen = 4
  NumLen = 4
  CodeLen = 32
  KeyLen = 32
  Root <- RRootC
  SlashC = 47
  TickC = 39
  DigitBase = 48
  IsBlank <- RBlank
  Number <- RNumber
  Soft <- RSoft
  Harden <- SetH
  Soften <- ClearH
  Numerals <- RNumerals
  RootNumber <- RRootNumber
  WClaims <- RClaims
  GenNames <- RGens
  RangeNames <- RRanges
  NoRoot <- REmpty
  MLetter = 109
  Nth <- RNth
  Size <- RSize
  AnyHard <- RAnyHard
  Spread <- Uncompress
  AccountHash <- RAccount
  HexText <- RHexText
  Text58 <- RText58
  TextNames <- RTexts
  BufNames <- RBufs
  KeyNames <- RKeys
  ListNames <- RLists
  FirstList <- English
  MnemonicOf <- RWrite
  EntropyIn <- RRead
  Stretch <- RStretch
  UnhexText <- RUnhexText
  Back58 <- RBack58
  MinSeed = 16
  Blank <- REmpty
