SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 49, 57, 32, 97, 116, 1044, 1072, 65535}
  MaxText = 3
  Octets = {0, 1, 5, 65, 152, 192, 128}
  MaxOctets = 2
INVARIANTS Admitted TextRoundTrip NumberRoundTrip
CHECK_DEADLOCK FALSE
