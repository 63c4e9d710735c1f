SPECIFICATION TSpec
CONSTANTS
  Start <- MStart
  Do <- MDo
  SetKeys <- MSets
  Inv <- MInv
POSTCONDITION Consumed
