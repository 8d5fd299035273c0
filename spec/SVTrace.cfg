CONSTANTS
  MaxBuffer = 60
  HashListBytes = 19200
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
VIEW View
