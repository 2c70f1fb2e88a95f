SPECIFICATION Spec
CONSTANTS
  N = 3
  ATT = 4
  LAT = {0, 1, 4, 9}
  WINDOWS = 3
INVARIANTS Bounded Used
CHECK_DEADLOCK FALSE
