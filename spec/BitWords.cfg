CONSTANTS
  Elements = {1, 2, 9, 10, 18, 19, 40, 41, 54, 55, 62, 63, 64, 65, 72, 73, 80, 81}
  Few = 2
  Variant = "code"
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANTS Canonical Reads Swaps
PROPERTIES Effect
CHECK_DEADLOCK FALSE
