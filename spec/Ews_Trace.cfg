SPECIFICATION TSpec
CONSTANTS
  Start <- WStart
  Do <- WDo
  SetKeys <- WSets
  Inv <- WInv
POSTCONDITION Consumed
