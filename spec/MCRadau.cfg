SPECIFICATION Spec
CONSTANTS
  XMax = 3
  NMax = 4
  Stretch <- MCStretch
  Arrived <- MCArrived
  DefaultStep <- MCDefault
  Slack <- MCSlack
  Tiny <- MCTiny
INVARIANTS Lands Inside StepInside LastIsLast Counts FactCurrent
PROPERTIES Together Monotone Terminates Fresh
CHECK_DEADLOCK FALSE
