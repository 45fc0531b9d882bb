SPECIFICATION Spec
CONSTANTS
  PP = 5
  Mode = 1
  Objects = {1}
  Plus <- MPlus
  Minus <- MMinus
  Times <- MTimes
  Over <- MOver
INVARIANTS NoStaleRead InitialisedOnce OneSolvePerStage
PROPERTIES IsTheMethod DataStay RefusalTouchesNothing
CHECK_DEADLOCK FALSE
