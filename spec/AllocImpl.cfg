CONSTANTS
  Threads = {a, b, c}
  Size = 8
  Sizes = {1, 3, 4, 9}
  Aligns = {1, 2, 4, 8}
  Most = 4
  Calls = 4
  Base = 4
  Variant = "cas"
SPECIFICATION Spec
SYMMETRY Symm
INVARIANTS InvAligned InvInside InvDisjoint InvOveraligned InvNothingLost InvRange
CHECK_DEADLOCK FALSE
