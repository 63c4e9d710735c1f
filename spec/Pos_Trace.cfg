SPECIFICATION TSpec
CONSTANTS
  Start <- PoStart
  Do <- PoDo
  SetKeys <- PoSets
  Inv <- PoInv
POSTCONDITION Consumed
