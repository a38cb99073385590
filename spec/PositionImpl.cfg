CONSTANTS
  Window = {40, 63, 64}
  Ks = {1, 8, 9}
  Most = 1
  Depth = 1
  Variant = "code"
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS ViewPlayers ViewKinds ViewPieces ViewOccupied ViewKings
PROPERTIES Effect Rejected Conserved
CHECK_DEADLOCK FALSE
