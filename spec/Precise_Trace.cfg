SPECIFICATION TSpec
CONSTANTS
  Start <- PStart
  Do <- PDo
  SetKeys <- PSets
  Inv <- PInv
POSTCONDITION Consumed
