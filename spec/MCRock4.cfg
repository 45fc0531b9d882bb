SPECIFICATION Spec
CONSTANTS
  TMax = 3
  RhoMax = 2
  MaxStages <- MCMax
  AskEvery = 2
  NearEnd <- MCNearEnd
  TooSmall <- MCTooSmall
  Stages <- MCStages
  LimitStep <- MCLimit
  DegreeFor <- MCDegree
INVARIANTS Lands Inside StepInside EnoughStages RecentRho Counts Owned KernelOk
PROPERTIES Together Monotone RetrySmaller Terminates
CHECK_DEADLOCK FALSE
