SPECIFICATION TSpec
CONSTANTS
  Start <- TmStart
  Do <- TmDo
  SetKeys <- TmSets
  Inv <- TmInv
POSTCONDITION Consumed
