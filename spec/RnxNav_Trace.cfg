SPECIFICATION TSpec
CONSTANTS
  Start <- RStart
  Do <- RDo
  SetKeys <- RSets
  Inv <- RInv
POSTCONDITION Consumed
