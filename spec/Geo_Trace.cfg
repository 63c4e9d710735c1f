SPECIFICATION TSpec
CONSTANTS
  Start <- GeoStart
  Do <- GeoDo
  SetKeys <- GeoSets
  Inv <- GeoInv
POSTCONDITION Consumed
