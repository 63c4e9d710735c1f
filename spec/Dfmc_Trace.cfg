SPECIFICATION TSpec
CONSTANTS
  Start <- DStart
  Do <- DDo
  SetKeys <- DSets
  Inv <- DInv
POSTCONDITION Consumed
