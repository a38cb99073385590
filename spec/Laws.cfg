SPECIFICATION Spec
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS
  Swaps = {1, 9, 41, 80}
