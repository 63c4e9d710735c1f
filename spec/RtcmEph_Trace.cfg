SPECIFICATION TSpec
CONSTANTS
  Start <- EStart
  Do <- EDo
  SetKeys <- ESets
  Inv <- EInv
POSTCONDITION Consumed
