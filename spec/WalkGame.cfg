CONSTANT
  Length = 4
SPECIFICATION Spec
INVARIANTS Emit IsLast PositionStays
CHECK_DEADLOCK FALSE
