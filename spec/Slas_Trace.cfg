SPECIFICATION TSpec
CONSTANTS
  Start <- SlStart
  Do <- SlDo
  SetKeys <- SlSets
  Inv <- SlInv
POSTCONDITION Consumed
