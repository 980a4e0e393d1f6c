SPECIFICATION Spec
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
INVARIANTS Means Restored Watched Obedient Sharp Noticed
CONSTANTS
  SeedKey <- TSeedKey
  Hmac <- THmac
  Left <- TLeft
  Right <- TRight
  LeftOK <- TLeftOK
  ScalarOK <- TScalarOK
  ScalarPlus <- TScalarPlus
  Point <- TPoint
  PointPlus <- TPointPlus
  PointOK <- TPointOK
  Identifier <- TIdentifier
  Checksum <- TChecksum
  IsHard <- THard
  PrvVersions <- TPrv
  PubVersions <- TPub
  PairedPub <- TPairedPub
  DefaultPrv <- TDefaultPrv
  DefaultPub <- TDefaultPub
  MaxDepth = 2
  SumLen = 1
  VerLen = 1
  NumLen = 1
  CodeLen = 1
  KeyLen = 1
  Root <- TRoot
  SlashC = 47
  TickC = 39
  DigitBase = 48
  IsBlank <- TBlank
  Number <- TNumber
  Soft <- TSoft
  Harden <- THarden
  Soften <- TSoften
  Numerals <- TNumerals
  RootNumber <- TRootNumber
  WClaims <- TClaims
  GenNames <- TGens
  RangeNames <- TRanges
  NoRoot <- TNoRoot
  MLetter = 109
  Nth <- TNth
  Size <- TSize
  AnyHard <- TAnyHard
  Spread <- TSpread
  AccountHash <- TAccount
  HexText <- THexText
  Text58 <- TText58
  TextNames <- TTexts
  BufNames <- TBufs
  KeyNames <- TKeys
  ListNames <- TLists
  FirstList = 1
  MnemonicOf <- TMnemonic
  EntropyIn <- TEntropy
  Stretch <- TStretch
  UnhexText <- TUnhexText
  Back58 <- TBack58
  MinSeed = 2
  Blank <- TNoRoot
