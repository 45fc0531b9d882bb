SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
INVARIANTS RaceFree Complete Serial
PROPERTIES Ends
CHECK_DEADLOCK FALSE
