SPECIFICATION Spec
CONSTANTS
  Steps = {1, 2, 4}
  MaxAttempts = 3
  MaxEvents = 4
INVARIANTS Right Sensitive Complete Reading
CHECK_DEADLOCK FALSE
