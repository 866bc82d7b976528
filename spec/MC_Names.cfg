SPECIFICATION Spec
CONSTANTS
  Chars = {46, 48, 49, 53, 32, 97}
  MaxChars = 5
  Vals = {0, 9, 10, 255}
INVARIANTS TextIsName NameRoundTrip TotalOrder InvokeRoundTrip ConfRoundTrip ConfMirror DescRoundTrip
CHECK_DEADLOCK FALSE
