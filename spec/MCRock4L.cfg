SPECIFICATION Spec
CONSTANTS
  TMax = 7
  RhoMax = 4
  MaxStages <- MCMax
  NearEnd <- MCNearEnd
  TooSmall <- MCTooSmall
  Stages <- MCStages
  DegreeFor <- MCDegree
INVARIANTS Lands Inside Counts
PROPERTIES Monotone Stable Untouched Terminates
CHECK_DEADLOCK FALSE
