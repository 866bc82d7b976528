SPECIFICATION Spec
CONSTANTS
  Years = {1, 1900, 2000, 2023, 2024, 9999, 65535}
  Months = {1, 2, 4, 12, 255}
  Days = {1, 28, 29, 30, 31, 255}
  Weekdays = {1, 2, 3, 4, 5, 6, 7, 255}
  Bad = {0, 99999}
INVARIANTS AlwaysValid TextRoundTrip WholeRoundTrip PyRoundTrip
CHECK_DEADLOCK FALSE
