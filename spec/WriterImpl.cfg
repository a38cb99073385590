CONSTANTS
  Masks = {0, 1, 256, 257, 16, 171, 341, 511, 255, 510}
  Ranks = {1, 5, 9}
  Counts = {0, 1, 2, 10, 11, 100, 128, 255}
  Plies = {0, 1, 9, 10, 101, 1000, 20020, 65535}
  Variant = "code"
SPECIFICATION Spec
INVARIANTS Prefix Complete Reported Stopped Runs ReadsBack
PROPERTIES Ends
CHECK_DEADLOCK FALSE
