SPECIFICATION TSpec
CONSTANTS
  Start <- FStart
  Do <- FDo
  SetKeys <- FSets
  Inv <- FInv
POSTCONDITION Consumed
