SPECIFICATION Spec
CONSTANTS
  Mode = 1
  N = 3
  Jacs = {1, 2}
  Shifts = {1, 2}
INVARIANTS Solves FindsSingular OneSystem NeverFromSingular
PROPERTIES FactorsStay
CHECK_DEADLOCK FALSE
