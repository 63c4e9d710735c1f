SPECIFICATION TSpec
CONSTANTS
  Start <- TideStart
  Do <- TideDo
  SetKeys <- TideSets
  Inv <- TideInv
POSTCONDITION Consumed
