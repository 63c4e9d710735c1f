SPECIFICATION TSpec
CONSTANTS
  Start <- StaStart
  Do <- StaDo
  SetKeys <- StaSets
  Inv <- StaInv
POSTCONDITION Consumed
