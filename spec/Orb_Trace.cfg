SPECIFICATION TSpec
CONSTANTS
  Start <- OrbStart
  Do <- OrbDo
  SetKeys <- OrbSets
  Inv <- OrbInv
POSTCONDITION Consumed
