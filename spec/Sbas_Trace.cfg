SPECIFICATION TSpec
CONSTANTS
  Start <- SStart
  Do <- SDo
  SetKeys <- SSets
  Inv <- SInv
POSTCONDITION Consumed
