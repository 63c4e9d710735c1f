SPECIFICATION TSpec
CONSTANTS
  Start <- BStart
  Do <- BDo
  SetKeys <- BSets
  Inv <- BInv
POSTCONDITION Consumed
