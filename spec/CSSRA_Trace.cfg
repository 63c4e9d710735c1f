SPECIFICATION TSpec
CONSTANTS
  Start <- CStart
  Do <- CADo
  SetKeys <- CSets
  Inv <- CInv
POSTCONDITION Consumed
