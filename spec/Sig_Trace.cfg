SPECIFICATION TSpec
CONSTANTS
  Start <- GStart
  Do <- GDo
  SetKeys <- GSets
  Inv <- GInv
POSTCONDITION Consumed
