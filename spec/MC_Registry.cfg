SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Built NamesFound Noticed
CONSTANTS
  Root <- RRootC
  SlashC = 47
  TickC = 39
  DigitBase = 48
  IsBlank <- RBlank
  Number <- RNumber
  Soft <- RSoft
  Harden <- SetH
  Soften <- ClearH
  Numerals <- RNumerals
  RootNumber <- RRootNumber
