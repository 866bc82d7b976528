SPECIFICATION Spec
CONSTANTS
  Years = {1, 4, 100, 256, 400, 1582, 1899, 1900, 1999, 2000, 2001, 2023, 2024, 2100, 9999, 65535}
  Months = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255}
  Days = {1, 2, 15, 28, 29, 30, 31, 255}
  Weekdays = {1, 2, 3, 4, 5, 6, 7, 255}
  Bad = {0, 99999}
INVARIANTS AlwaysValid TextRoundTrip WholeRoundTrip PyRoundTrip
CHECK_DEADLOCK FALSE
