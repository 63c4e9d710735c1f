SPECIFICATION TSpec
CONSTANTS
  Start <- IStart
  Do <- IDo
  SetKeys <- ISets
  Inv <- IInv
POSTCONDITION Consumed
