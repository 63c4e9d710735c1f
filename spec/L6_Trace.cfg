SPECIFICATION TSpec
CONSTANTS
  Start <- LStart
  Do <- LDo
  SetKeys <- LSets
  Inv <- LInv
POSTCONDITION Consumed
