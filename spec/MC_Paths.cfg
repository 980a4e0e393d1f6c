SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agree Sorted RoundTrip BlankFree Blameless Replacing
CONSTANTS
  Root <- TRoot
  SlashC = 47
  TickC = 39
  DigitBase = 48
  IsBlank <- TBlank
  Number <- TNumber
  Soft <- TSoft
  Harden <- THarden
  Soften <- TSoften
  Numerals <- TNumerals
  RootNumber <- TRootNumber
