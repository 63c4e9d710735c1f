SPECIFICATION TSpec
CONSTANTS
  Start <- HStart
  Do <- HDo
  SetKeys <- HSets
  Inv <- HInv
POSTCONDITION Consumed
