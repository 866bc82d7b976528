SPECIFICATION Spec
CONSTANTS
  Chars = {46, 48, 49, 53, 32, 97}
  MaxChars = 7
  Vals = {0, 1, 9, 10, 99, 100, 254, 255}
INVARIANTS TextIsName NameRoundTrip TotalOrder InvokeRoundTrip ConfRoundTrip ConfMirror DescRoundTrip
CHECK_DEADLOCK FALSE
