SPECIFICATION TSpec
CONSTANTS
  Start <- ZStart
  Do <- ZDo
  SetKeys <- ZSets
  Inv <- ZInv
POSTCONDITION Consumed
