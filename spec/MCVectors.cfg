SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  Users = 1
  MaxBlocks = 4
INVARIANTS OneOwner OwnersAlive UsersAlive NoLeak
PROPERTIES FreedOnce OneChange
CHECK_DEADLOCK FALSE
