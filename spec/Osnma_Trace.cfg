SPECIFICATION TSpec
CONSTANTS
  Start <- OStart
  Do <- ODo
  SetKeys <- OSets
  Inv <- OInv
POSTCONDITION Consumed
