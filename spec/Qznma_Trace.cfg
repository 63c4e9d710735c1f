SPECIFICATION TSpec
CONSTANTS
  Start <- QStart
  Do <- QDo
  SetKeys <- QSets
  Inv <- QInv
POSTCONDITION Consumed
