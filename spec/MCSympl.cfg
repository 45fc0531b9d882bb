SPECIFICATION Spec
CONSTANTS
  P = 3
  Mode = 1
  MaxIter = 3
  Steps = 2
  Grid = 4
INVARIANTS Equations Limit SmallCarry Constant NothingLost
PROPERTIES FailureChangesNothing OnlyAccept RightPolynomial
CHECK_DEADLOCK FALSE
