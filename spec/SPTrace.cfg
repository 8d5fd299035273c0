CONSTANTS
  MaxBuf = 60
  Sessions = {1, 2, 3, 4, 5, 6, 7, 8}
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
