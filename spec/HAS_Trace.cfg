SPECIFICATION TSpec
CONSTANTS
  Start <- AStart
  Do <- ADo
  SetKeys <- ASets
  Inv <- AInv
POSTCONDITION Consumed
