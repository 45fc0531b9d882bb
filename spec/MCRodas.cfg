SPECIFICATION Spec
CONSTANTS
  XMax = 4
  NMax = 4
  Stretch <- MCStretch
  TooSmall <- MCTooSmall
  DefaultStep <- MCDefault
  Slack <- MCSlack
INVARIANTS Lands Inside MCInsideH MCLastIsLast Counts
PROPERTIES Together Monotone Terminates
CHECK_DEADLOCK FALSE
