SPECIFICATION TSpec
CONSTANTS
  Start <- CStart
  Do <- CDo
  SetKeys <- CSets
  Inv <- CInv
POSTCONDITION Consumed
