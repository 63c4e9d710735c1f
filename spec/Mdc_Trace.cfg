SPECIFICATION TSpec
CONSTANTS
  Start <- MdcStart
  Do <- MdcDo
  SetKeys <- MdcSets
  Inv <- MdcInv
POSTCONDITION Consumed
