SPECIFICATION TSpec
CONSTANTS
  Start <- NStart
  Do <- NDo
  SetKeys <- NSets
  Inv <- NInv
POSTCONDITION Consumed
