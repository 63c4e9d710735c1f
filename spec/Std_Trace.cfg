SPECIFICATION TSpec
CONSTANTS
  Start <- StStart
  Do <- StDo
  SetKeys <- StSets
  Inv <- StInv
POSTCONDITION Consumed
